CHECKS = {}


def chk(pid, src, level="model_checking", **kw):
    CHECKS[pid] = dict(src=src if isinstance(src, list) else [src], level=level, **kw)

chk("G01", "g01.cpp", rule="a point of the (alpha, beta/H, v_wall, g*, T, eps) lattice or a call history; classes of regimes reached")

chk("B02", "b02.cpp", rule="an action curve x wall velocity x history; classes: which of the four temperatures exist x number of points")
chk("B03", "b03.cpp", rule="potential x action curve x wall-velocity setting x call history; classes: setting, convergence, detonation")
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
chk("C01", "c01.cpp", rule="a schedule of a scenario; classes: scenario x (solutions found, starting points tried, minimum returned)",
    libflags=TSAN, libfirst=True, aux=[("sched/sched.cpp", ["-fno-threadsafe-statics"])], shards=8, case_timeout=300,
    ldflags=["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=gsl_multimin_fminimizer_set,--wrap=gsl_multimin_fminimizer_iterate"])
chk("B01", "b01.cpp", rule="a potential barrier x dimension x orientation; classes: family x dimension x symmetry x action decade quarter")
chk("M04", "m04.cpp", rule="a model x Yukawa type x input point; classes: model x type x lightest mass")
chk("M05", "m05.cpp", rule="a model x Yukawa type x input point; classes: model x type x kind of expression")
chk("M07", "m07.cpp", rule="an argument m^2/T^2; classes: region of the argument")
chk("M06", "m06.cpp", rule="a model x Yukawa type x input point; classes: model x type")
chk("M03", "m03.cpp", ldflags=["-lquadmath"], rule="a model x Yukawa type x input point; classes: model x type")
chk("M08", "m08.cpp", ldflags=["-lquadmath"], rule="a model x Yukawa type x input point; classes: model x type")
chk("M01", "m01.cpp", rule="a history of operations on a model object; classes: model x kind of history")
chk("M02", "m02.cpp", rule="a line of a data file; classes: model x index column x kind of check")
chk("M09", "m09.cpp", rule="an arrangement of fields and VEVs, or a model's legend; classes: model x kind of check")
chk("V01", "v01.cpp", rule="a tensor, or a model with a set of defects; classes: self test x whether its claim holds")
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
SPEC = [("src/utility/Logger.cpp", ASAN), ("src/utility/parser.cpp", ASAN)]
chk("U01", "u01.cpp", rule="a history of logger operations; classes: first operation", flags=ASAN, repo_special=SPEC, ldflags=["-fsanitize=address"])
chk("P01", "p01.cpp", rule="a sequence of arguments or a JSON file; classes: constructor x declarations x length", flags=ASAN, repo_special=SPEC, ldflags=["-fsanitize=address"])
chk("U02", "u02.cpp", rule="a path of the lattice or an editing history; classes: dimension x number of points x regularity, kind of edit")
chk("U03", "u03.cpp", rule="a monomial, a spline (data x type x boundary), an argument; classes: building block and its variant")
chk("E02", "e02.cpp", rule="a high-temperature shape, a reported minimum, or a pair of wells; classes: dimension x verdict")
chk("E01", "e01.cpp", rule="a history of the minimum x field content x temperature range; classes: verdict x dimension x order")
chk("C02", "c02.cpp", rule="a potential x set of minimisers x starting configuration; classes: dimension x minimisers x kind of result")
chk("D01", "d01.cpp", rule="a potential x pair of end points x position of the plane x minimisers; classes: dimension x minimisers x potential")
chk("T03", "t03.cpp", rule="a symmetry group x VEV lattice, a block structure of flat directions, a model point; classes: kind x dimension x order of the group", ldflags=["-Wl,--wrap=rand,--wrap=srand"])
chk("T02", "t02.cpp", case_timeout=40, rule="a set of phases (ranges x depth curves), an insertion history, a pipeline run; classes: dimension x kind of crossing, coverage, mode")
chk("T01", "t01.cpp", case_timeout=200, rule="a potential with known minima x multi-step mode x temperature range; classes: family x dimension x mode x status x number of phases")
chk("B04", "b04.cpp", case_timeout=200, rule="a group x placement of the vacua, a complete scan of a potential, a history of single calculations; classes: kind x dimension x outcome")
chk("R01", "r01.cpp", case_timeout=200, rule="a potential x settings of the transition tracer; classes: dimension x statuses of all stages x length of the history")
chk("P02", "p02.cpp", case_timeout=200, rule="a program x input file x line range x notation x settings, or a call to be refused; classes: program x dimension or model x kind of range",
    progs=["BSMPT", "CalcCT", "CalcGW", "CalcTemps", "MinimaTracer", "NLOVEV", "PotPlotter", "TripleHiggsNLO", "VEVEVO"], progaux=["p02_wrap.cpp"],
    progflags=["-Wl,--wrap=_ZN5BSMPT7ModelID7FChooseENS0_8ModelIDsERKNS_12ISMConstantsE"])
NOT_APPLICABLE = {}
HOOKS = None
