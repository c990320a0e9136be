from props import Q, prop, PROPS
from q_cpuinfo import *  # noqa
from q_procinfo import *  # noqa
from q_lewi import *  # noqa
from q_mask import *  # noqa
from q_talp import *  # noqa
import q_talp2
import q_barrier
import q_shmem, q_policy, q_api  # noqa
