/* GTree as the map it implements (gtree.c itself is decided separately):
 * insertion with an existing key replaces the value and destroys the old one. */
#include "support/gtree.h"
#include "vp.h"
#ifndef VP_MAP_CAP
#define VP_MAP_CAP 6
#endif
struct _GTreeNode { gpointer key, value; };
struct _GTree { GTreeNode e[VP_MAP_CAP]; int n; GCompareFunc cmp; GDestroyNotify kd, vd; };
static struct _GTree vp_map;
GTree *(g_tree_new_full)(GCompareDataFunc c, gpointer d, GDestroyNotify kd, GDestroyNotify vd) { vp_map.n = 0; vp_map.cmp = (GCompareFunc)c; vp_map.kd = kd; vp_map.vd = vd; return &vp_map; }
static int vp_map_find(gconstpointer k) { for (int i = 0; i < VP_MAP_CAP; ++i) if (i < vp_map.n && vp_map.cmp(vp_map.e[i].key, k) == 0) return i; return -1; }
gpointer g_tree_lookup(GTree *t, gconstpointer k) { int i = vp_map_find(k); gpointer v = NULL; for (int j = 0; j < VP_MAP_CAP; ++j) if (j == i) v = vp_map.e[j].value; return v; }
void g_tree_insert(GTree *t, gpointer k, gpointer v) {
    int f = vp_map_find(k);
    for (int j = 0; j < VP_MAP_CAP; ++j) {
        if (f >= 0 && j == f) { if (vp_map.vd) vp_map.vd(vp_map.e[j].value); vp_map.e[j].value = v; }
        if (f < 0 && j == vp_map.n) { vp_map.e[j].key = k; vp_map.e[j].value = v; }
    }
    if (f < 0) { vp_map.n++; ASSUME(vp_map.n < VP_MAP_CAP); }
}
gint g_tree_nnodes(GTree *t) { return vp_map.n; }
GTreeNode *g_tree_node_first(GTree *t) { return vp_map.n ? &vp_map.e[0] : NULL; }
GTreeNode *g_tree_node_next(GTreeNode *x) { int i = (int)(x - vp_map.e) + 1; return i < vp_map.n ? &vp_map.e[i] : NULL; }
gpointer g_tree_node_value(GTreeNode *x) { return x->value; }
gpointer g_tree_node_key(GTreeNode *x) { return x->key; }
void g_tree_destroy(GTree *t) { for (int j = 0; j < VP_MAP_CAP; ++j) if (j < vp_map.n && vp_map.vd) vp_map.vd(vp_map.e[j].value); vp_map.n = 0; }
