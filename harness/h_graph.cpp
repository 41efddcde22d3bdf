#include "graph.h"
using namespace H;


SCENARIO(C01, flat) { Opt o; o.g.groups = 0; o.g.max_top = 9; o.bind = true; graph_common(o); }
SCENARIO(C01, nested) { Opt o; o.g.max_top = 5; o.min_threads = 4; graph_common(o); }

SCENARIO(C02, flat) { Opt o; o.g.groups = 0; o.g.max_top = 6; o.max_runs = 5; o.process = true; o.serial = true; o.bind = true; graph_common(o); }
SCENARIO(C02, nested) { Opt o; o.g.max_top = 4; o.g.hidden = true; o.serial = true; o.min_threads = 4; o.max_runs = 4; o.process = true; graph_common(o); }
SCENARIO(C02, wide) { Opt o; o.g.groups = 0; o.g.max_top = 14; o.g.edges = false; o.g.holds = false; o.max_runs = 4; graph_common(o); }

SCENARIO(C03, flat) { Opt o; o.g.groups = 0; o.g.max_top = 6; o.modes = 3; o.max_runs = 3; graph_common(o); }
SCENARIO(C03, wide) { Opt o; o.g.groups = 0; o.g.max_top = 8; o.g.edges = false; o.modes = 3; o.engine = 0; o.max_runs = 3; graph_common(o); }
SCENARIO(C03, nested) { Opt o; o.g.max_top = 4; o.min_threads = 4; o.modes = 3; graph_common(o); }
SCENARIO(C03, clean) { Opt o; o.g.groups = 0; o.g.max_top = 8; o.max_runs = 4; graph_common(o); }

SCENARIO(C04, flat) { Opt o; o.g.groups = 0; o.g.max_top = 7; o.modes = 5; o.max_runs = 4; o.bind = true; graph_common(o); }
SCENARIO(C04, nested) { Opt o; o.g.max_top = 4; o.min_threads = 4; o.modes = 5; o.max_runs = 3; graph_common(o); }

SCENARIO(C05, flat) { Opt o; o.g.groups = 0; o.g.max_top = 6; o.modes = 2 | 8 | 16; o.max_runs = 4; o.serial = true; graph_common(o); }
SCENARIO(C05, nested) { Opt o; o.serial = true; o.g.max_top = 4; o.min_threads = 4; o.modes = 2 | 8 | 16; o.max_runs = 3; graph_common(o); }

SCENARIO(C06, groups) { Opt o; o.g.groups = 2; o.g.max_top = 3; o.g.kinds = K_CR; o.min_threads = 4; o.max_runs = 2; graph_common(o); }
SCENARIO(C06, errors) { Opt o; o.g.groups = 2; o.g.max_top = 3; o.g.kinds = K_CR; o.min_threads = 4; o.modes = 1 | 2; graph_common(o); }
SCENARIO(C07, groups) { Opt o; o.g.hidden = true; o.serial = true; o.g.groups = 2; o.g.max_top = 3; o.g.kinds = K_CM; o.min_threads = 4; o.max_runs = 2; graph_common(o); }
SCENARIO(C07, errors) { Opt o; o.serial = true; o.g.groups = 2; o.g.max_top = 3; o.g.kinds = K_CM; o.min_threads = 4; o.modes = 1 | 2 | 32; graph_common(o); }
SCENARIO(C09, plain) { Opt o; o.serial = true; o.g.groups = 2; o.g.max_top = 3; o.g.kinds = K_MU; o.min_threads = 4; o.max_runs = 3; graph_common(o); }
SCENARIO(C09, errors) { Opt o; o.g.groups = 2; o.g.max_top = 3; o.g.kinds = K_MU; o.min_threads = 4; o.modes = 1 | 2; graph_common(o); }
SCENARIO(C09, cycle) { Opt o; o.g.groups = 2; o.g.max_top = 3; o.g.kinds = K_MU; o.min_threads = 4; o.modes = 1 | 2 | 64; o.max_runs = 3; graph_common(o); }
