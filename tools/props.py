"""What each check runs: model(s) to explore, harness, trace specification."""
PROPS = {}
NOT_APPLICABLE = {}


def npts(r, s): return r.choice([1, 2, 3, 3, 4])
def nz(r, s): return r.choice([1, 2, 3])
def np_(r, s): return r.choice([1, 1, 2])


NOTE_MAT = ("TLC enumerates the request space (law x implementation x compressibility x dimension x geometry x motion x parameter field) completely; "
            "a seeded pairwise-covering selection is run on the real classes and every answer is compared in TLC with the law written in spec/Constitutive.tla. "
            "Trusted: double arithmetic, the IEEE override of spec/RealArith.tla, G+Smo core geometry evaluation.")


def mat(pid, mode, quick, thorough, gen="MatGen", **kw):
    PROPS[pid] = dict(target="mat", trace="MatTrace",
                      explore=[dict(spec=gen, cfg=gen + ".cfg", emit=(quick, thorough))],
                      extra=dict(mode=mode, n=npts, nz=nz, np=np_), note=NOTE_MAT, **kw)


mat("P08", "stress", 400, 2500, technique="request space enumerated, stress law as energy gradient under plane stress")
mat("P09", "tangent", 240, 2500, technique="request space enumerated, tangent as derivative of the specified stress")
mat("P10", "derived", 300, 2500, technique="request space enumerated, derived quantities against the specified point state")
mat("P11", "integ", 150, 1500, gen="IntGen", technique="request space enumerated, Gauss/analytic thickness integrals of the specified law")

PROPS["P12"] = dict(target="ops", trace="OpsTrace", technique="lives of material objects: model of definitions, copies, containers and evaluators; simulated histories replayed",
                    explore=[dict(spec="MatOps", cfg="MatOps.cfg"), dict(spec="MatOps", cfg="MatOpsBig.cfg", tier="thorough", workers=8),
                             dict(spec="MatOps", cfg="MatOpsSim.cfg", simulate=(80, 800), depth=20, emit=(10**6, 10**6)),
                             dict(spec="MatOps", cfg="MatOpsSim3.cfg", simulate=(80, 800), depth=20, emit=(10**6, 10**6))],
                    note=NOTE_MAT)

NOTE_ASM = ("TLC builds shell problems step by step (mesh, materials, loads, supports, options) in seeded simulation, a pairwise-covering selection is run on the real assembler, "
            "and TLC compares every delivered system, probed with random admissible virtual fields, with the virtual work written in spec/Shell.tla. "
            "Trusted: double arithmetic, IEEE override, G+Smo core bases, quadrature nodes and degree-of-freedom mapper.")


def asm(pid, mode, quick, thorough, technique, **kw):
    PROPS[pid] = dict(target="asm", trace="ShellTrace",
                      explore=[dict(spec="ShellGen", cfg="ShellGen.cfg", simulate=(2000, 6000), depth=7, emit=(quick, thorough))],
                      extra=dict(mode=mode), note=NOTE_ASM, technique=technique, **kw)


asm("P02", "force", 60, 600, "problems built by the specification, residuals compared with the specified virtual work")
asm("P03", "tangent", 40, 400, "problems built by the specification, matrices compared with the specified second variation and with the residual")
asm("P04", "load", 80, 800, "problems built by the specification, right-hand sides compared with the specified work of every load")
asm("P06", "mass", 120, 1200, "problems built by the specification, mass matrices compared with the specified kinetic energy")

PROPS["P01"] = dict(target="hist", trace="ShellOpsTrace", technique="lives of assemblers: model of definitions, copies and assemblies; simulated histories replayed and compared with new objects",
                    explore=[dict(spec="ShellOps", cfg="ShellOps.cfg"),
                             dict(spec="ShellOps", cfg="ShellOpsSim.cfg", simulate=(480, 5000), depth=20, emit=(10**6, 10**6))],
                    note=NOTE_ASM)

PROPS["P18"] = dict(target="weak", trace="WeakTrace", technique="problems with weak supports and couplings built by the specification, added forces and stiffness compared with the specified penalty energy",
                    explore=[dict(spec="WeakGen", cfg="WeakGen.cfg", simulate=(3000, 9000), depth=7, emit=(90, 900))],
                    extra={}, note=NOTE_ASM)

PROPS["P05"] = dict(target="conv", trace="ConvTrace", technique="problems with supports and lives between conversions built by the specification, constructed fields and vectors compared with the specified unknowns and prescribed values",
                    explore=[dict(spec="ConvGen", cfg="ConvGen.cfg", simulate=(4000, 12000), depth=16, emit=(260, 4000))],
                    extra={}, note=NOTE_ASM)

PROPS["P19"] = dict(target="post", trace="PostTrace", technique="questions to assemblers in any order, generated by the specification; answers compared with the specified measures",
                    explore=[dict(spec="PostGen", cfg="PostGen.cfg", simulate=(2500, 9000), depth=14, emit=(110, 1500))],
                    extra={}, note=NOTE_ASM)

PROPS["P17"] = dict(target="field", trace="MatTrace", technique="fields of several states and patches asked for and evaluated in any order, generated by the specification; values compared with the specified state of the material point",
                    explore=[dict(spec="FieldGen", cfg="FieldGen.cfg", simulate=(3000, 9000), depth=13, emit=(240, 3000))],
                    extra={}, note=NOTE_MAT)

PROPS["P14"] = dict(target="io", trace="MatTrace", technique="every factory request and file layouts enumerated by the specification; granted objects compared with the requested law, refusals with the catalogue",
                    explore=[dict(spec="IoGen", cfg="IoFactory.cfg", emit=(10**6, 10**6)), dict(spec="IoGen", cfg="IoFile.cfg", emit=(300, 3000)),
                             dict(spec="IoGen", cfg="IoCont.cfg", emit=(60, 1500))],
                    extra={}, note=NOTE_MAT)

PROPS["P15"] = dict(target="lam", trace="LamTrace", technique="stacks of plies and questions in any order generated by the specification; stiffnesses and resultants compared with the sum over the plies",
                    explore=[dict(spec="LamGen", cfg="LamGen.cfg", simulate=(3000, 9000), depth=11, emit=(300, 4000))],
                    extra={}, note=NOTE_MAT)

PROPS["P13"] = dict(target="tft", trace="TftTrace", technique="lives of tension-field materials generated by the specification; answers compared with the specified classes and the relaxed base law",
                    explore=[dict(spec="TftGen", cfg="TftGen.cfg", simulate=(3000, 9000), depth=14, emit=(400, 4000))],
                    extra={}, note=NOTE_MAT)

PROPS["P07"] = dict(target="frame", trace="FrameTrace", technique="structures carried through generated sequences of motions and re-parametrisations; every observable of every version compared with the first",
                    explore=[dict(spec="FrameGen", cfg="FrameGen.cfg", simulate=(2000, 8000), depth=8, emit=(100, 1200))],
                    extra={}, note=NOTE_ASM)

PROPS["P16"] = dict(target="dwr", trace="DualTrace", technique="questions to goal-oriented assemblers in any order, generated by the specification; goals, duals, operators and estimates compared with the specified functionals and residuals",
                    explore=[dict(spec="DualGen", cfg="DualGen.cfg", simulate=(2500, 9000), depth=18, emit=(120, 1500))],
                    extra={}, note=NOTE_ASM)

PROPS["P20"] = dict(target="sum", trace="SumTrace", technique="lives of sums of functions: model of terms, copies and destruction; simulated histories replayed, answers compared with the sum of the terms",
                    explore=[dict(spec="SumOps", cfg="SumOps.cfg"),
                             dict(spec="SumOps", cfg="SumOpsSim.cfg", simulate=(300, 4000), depth=20, emit=(10**6, 10**6))],
                    extra={}, note=NOTE_ASM)

PROPS["P21"] = dict(target="space", trace="SpaceTrace", technique="lives of assemblers over mapped bases: model of spaces, copies and loads; simulated histories replayed, systems compared with those of the pieces seen through the mapping",
                    explore=[dict(spec="SpaceOps", cfg="SpaceOps.cfg"),
                             dict(spec="SpaceOps", cfg="SpaceOpsSim.cfg", simulate=(300, 4000), depth=20, emit=(10**6, 10**6))],
                    extra={}, note=NOTE_ASM)
