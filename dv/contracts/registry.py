from . import list as list_, set as set_, linkedlist, hashtable, cluster, distance, graph, order, stats, htclient, cmap, minmax, mst, outlier


def contracts():
    out = {}
    for m in (list_, set_, linkedlist, hashtable, cluster, distance, graph, order, stats, htclient, cmap, minmax, mst, outlier):
        for c in m.ALL:
            out[c.name] = c()
    return out
