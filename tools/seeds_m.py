H = "include/altruct/structure/graph/graph.h"
D = '#include "altruct/structure/graph/graph.h"\n#include <vector>\nusing namespace altruct::graph; typedef graph<edge> G; typedef weighted_edge<int> WE;\n'
SEEDS = [
    dict(id="c31-delnode-skip", property="C31", edits=[(H, "                if (l[i].v == u) {\n                    std::swap(l[i], l.back());\n                    l.pop_back();\n                } else {", "                if (l[i].v == u) {\n                    std::swap(l[i], l.back());\n                    l.pop_back();\n                    if (i < (int)l.size() && l[i].v == v) l[i++].v = u;\n                } else {")],
         needs="deleting the last node (u == v) while a row holds two or more edges to it, one of them last", breaks="an edge into the deleted last node survives when it is swapped into the place of another one",
         demo=D + "int main() { G g(3); g.add_edge(0, 2); g.add_edge(0, 2); g.delete_node(2); return g[0].empty() ? 0 : 1; }\n"),
    dict(id="c31-edge2-loop", property="C31", edits=[(H, "        adjl[e.v].push_back(e);\n        adjl[e.v].back().v = u;\n    }", "        if (u != e.v || adjl[u].size() < 2) {\n            adjl[e.v].push_back(e);\n            adjl[e.v].back().v = u;\n        }\n    }")],
         needs="an undirected self-loop added to a node that already has edges", breaks="only one of the two adjacency entries of the loop is recorded",
         demo=D + "int main() { G g(3); g.add_edge2(0, 1); g.add_edge2(0, 0); return g[0].size() == 3 ? 0 : 1; }\n"),
]
