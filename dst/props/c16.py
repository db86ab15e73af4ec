"""C16: plots and meshes show the trajectory as it is at the moment they are drawn."""

import os

from .. import seams, simutil as su, workload
from ..core import Violation, close
from . import c11, common

RUNS = {"quick": 4000, "thorough": 40000}
RULE = ("one case: a simulation and a history of queries, edits, refreshes (own, edited and new states; some interrupted) and failing or "
        "interrupted exports and plots; at seeded moments velocity plot, XY plot and 3D mesh are drawn and their data compared piece by piece "
        "with the trajectory of that moment. Non-trivial: a refresh, an edit or a failure came before a plot.")
REAL = common.REAL_ALL + ["matplotlib (figures and their data; Agg)", "pyvista/VTK mesh generation and native VTK writer and reader"]
STUBS = ["pyvista.Plotter (rendering)", "raw file layer (failing exports)", "asynchronous interruption", "console (captured)"]
ASSUMPTIONS = common.ASSUME + ["judged is the data of figures and meshes, not their rendering", "tube ends are matched within the tube's radius of 0.2 mm"]


def gen(rng, tier, i):
    plan = common.base_plan(rng, n=common.length(rng, rng.choice([rng.randint(2, 8), rng.randint(4, 20)]), long=(80, 200, 400)))
    plan["unit"] = "SImm"
    setup = common.setup_of(plan)
    plan["variants"] = [workload.variant(rng, plan["gcode"])]
    plan["others"] = [workload.program(rng, setup, n=rng.randint(2, 10), feats=workload.features(rng))]
    ops = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.12:
            ops.append({"op": "ask", "spec": common.time_spec(rng)})
        elif r < 0.2:
            ops.append({"op": "failed export", "what": rng.choice(su.EXPORTS), "io": rng.choice(["open", "write", "close"])})
        elif r < 0.4:
            ops.append({"op": "report"})
        elif r < 0.5:
            ops.append({"op": "edit"})
        else:
            ops += c11.refresh(rng)
    plan["ops"] = ops + [{"op": "report"}]
    plan["what"] = rng.choice(["vel", "xy", "mesh", "mesh", "vel", "all"])
    plan["axis"] = rng.choice([["x", "y", "z", "e"], ["x", "y", "z", "e"], ["y"], ["e", "x"], ["z", "x", "e"], []])
    plan["steps"] = rng.choice(["constrained", "constrained", 1, 2, 7, 50])
    plan["lines"] = [rng.random() < 0.5, rng.random() < 0.5]
    plan["colvar"] = rng.choice(["Velocity", "Velocity", "Velocity", "Acceleration", None])
    plan["res"] = rng.choice([1, 1, 0.3, 5])
    plan["points"] = rng.random() < 0.4
    plan["all"] = rng.random() < 0.3
    plan["vtk"] = rng.choice([None, "mesh.vtk", "mesh.vtk", "mesh.vtu"])
    plan["plotint"] = rng.randrange(rng.choice([60, 400, 3000])) if rng.random() < 0.3 else None
    return plan


class Plotter:
    """Rendering is not part of the simulation."""

    def __init__(self, *a, **k):
        pass

    def add_mesh(self, mesh, *a, **k):
        return mesh

    def show(self, *a, **k):
        return None

    screenshot = show
    close = show


def execute(plan, ctx):
    import pyvista
    from vtkmodules.vtkCommonCore import vtkLogger

    su.api().gi.pv.Plotter = pyvista.Plotter = Plotter
    vtkLogger.SetStderrVerbosity(vtkLogger.VERBOSITY_OFF)  # (a mesh without extrusion makes VTK complain on stderr)
    with seams.sim_console(seams.SimConsole(ctx)):
        c11._execute(plan, ctx, drawn)


def drawn(sim, ref, plan, ctx, what):
    segs = su.flat(sim)
    if plan["plotint"] is not None:
        # a plot which is given up half way does not influence the next one
        import matplotlib.pyplot as plt

        with seams.Interrupter(ctx, plan["plotint"], "INT"):
            try:
                (sim.plot_vel if plan["what"] == "vel" else sim.plot_2d_position if plan["what"] == "xy" else sim.plot_3d)(
                    **({"show": False} if plan["what"] == "vel" else {"filepath": False} if plan["what"] == "xy" else {}))
            except KeyboardInterrupt:
                ctx.nontrivial = True
                ctx.count("probe:plot interrupted")
        plt.close("all")
    for name, f in (("vel", velocity), ("xy", xy), ("mesh", mesh)):
        if plan["what"] in (name, "all"):
            f(sim, segs, plan, ctx, what)
            ctx.count("probe:compared " + name)


def norm(v):
    return sum(c * c for c in v[:3]) ** 0.5


def velocity(sim, segs, plan, ctx, what):
    import matplotlib.pyplot as plt

    axis, steps = plan["axis"], plan["steps"]
    fig = su.must("plot_vel", sim.plot_vel, axis=tuple(axis), show=False, show_planner_blocks=plan["lines"][0],
                  show_segments=plan["lines"][1], time_steps=steps)
    a1, a2 = fig.axes[:2]
    te = segs[-1][1]
    times = [0.0] + [s[1] for s in segs] if steps == "constrained" else [te * n / steps for n in range(steps)]
    named = {ln.get_label(): ln for ln in a1.lines}
    vlines = [ln for ln in a1.lines if ln.get_label() not in ("x", "y", "z", "e", "abs")]
    if sorted(set(named) & {"x", "y", "z", "e", "abs"}) != sorted(axis + ["abs"]) or len(a2.lines) != len(axis):
        raise Violation("wrong-velocity-plot", f"{what}: curves {sorted(named)} and {len(a2.lines)} positions for axis {axis}")
    for ln in [named[a] for a in axis + ["abs"]] + list(a2.lines):
        common.expect_equal("wrong-velocity-plot", f"{what}: times of {ln.get_label()}", [float(x) for x in ln.get_xdata()], times, 1e-9, 1e-9)
    for k, t in enumerate(times):
        at = [s for s in segs if s[0] - 1e-9 <= t <= s[1] + 1e-9]
        ok, best = False, None
        for s in at:
            w = 0.0 if s[1] == s[0] else min(1.0, max(0.0, (t - s[0]) / (s[1] - s[0])))
            v = [x + w * (y - x) for x, y in zip(s[4], s[5])]
            p = [x + (u + y) / 2 * w * (s[1] - s[0]) for x, u, y in zip(s[2], s[4], v)]
            want = [[v["xyze".index(a)] for a in axis], [p["xyze".index(a)] for a in axis], norm(v)]
            got = [[float(named[a].get_ydata()[k]) for a in axis], [float(ln.get_ydata()[k]) for ln in a2.lines], float(named["abs"].get_ydata()[k])]
            best = close(got, want, 1e-6, 1e-5)
            if not best:
                ok = True
                break
        if not ok:
            raise Violation("wrong-velocity-plot", f"{what}: at {t!r} the plot differs from the trajectory: {best}")
    ends = [su.flat([b])[-1][1] for b in sim.blocklist] if plan["lines"][0] else []
    ends += [s[1] for s in segs] if plan["lines"][1] else []
    marked = sorted(verticals(a1, vlines))
    common.expect_equal("wrong-velocity-plot", f"{what}: marked block and segment ends", marked, sorted(ends), 1e-9, 1e-9)
    plt.close("all")


def verticals(ax, lines):
    """Abscissae of vertical lines, however they are drawn."""
    from matplotlib.collections import LineCollection

    for ln in lines:
        x = [float(v) for v in ln.get_xdata()]
        last = None
        for v in x:  # (pieces separated by nan)
            if v == v and v != last:
                yield v
            last = v if v == v else None
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for q in c.get_segments():
                yield float(q[0][0])


def marks(ax):
    """Positions of point markers, however they are drawn."""
    from matplotlib.collections import PathCollection

    for c in ax.collections:
        if isinstance(c, PathCollection):
            yield from ([float(v) for v in p] for p in c.get_offsets())
    for ln in ax.lines:
        if ln.get_linestyle() in ("None", "", " ") and ln.get_marker() not in ("None", "", None):
            yield from ([float(x), float(y)] for x, y in zip(ln.get_xdata(), ln.get_ydata()))


def xy(sim, segs, plan, ctx, what):
    import matplotlib.pyplot as plt

    fig = su.must("plot_2d_position", sim.plot_2d_position, filepath=False, show=True, colvar=plan["colvar"], show_points=plan["points"],
                  colvar_spatial_resolution=plan["res"])
    ax = fig.axes if not hasattr(fig, "axes") or not isinstance(fig.axes, list) else fig.axes[0]
    verts = [segs[0][2][:2] + [norm(segs[0][4])]] + [s[3][:2] + [norm(s[5])] for s in segs]
    if plan["colvar"] != "Velocity":
        line = [ln for ln in ax.lines if ln.get_linestyle() not in ("None", "", " ")][0]
        common.expect_equal("wrong-xy-plot", f"{what}: XY path", [list(map(float, p)) for p in zip(line.get_xdata(), line.get_ydata())],
                            [v[:2] for v in verts], 1e-9, 1e-9)
    else:
        from matplotlib.collections import LineCollection

        coll = [c for c in ax.collections if isinstance(c, LineCollection)][0]
        pieces = [[list(map(float, p)) for p in q] for q in coll.get_segments()]
        colour = [float(c) for c in coll.get_array()]
        # the drawn pieces are connected and follow the path, in order, through every vertex of the trajectory with its speed as colour
        pts = [pieces[0][0]] + [q[1] for q in pieces] if pieces else []
        for q, r in zip(pieces, pieces[1:]):
            if close(q[1], r[0], 0, 1e-9):
                raise Violation("wrong-xy-plot", f"{what}: the drawn path has a gap between {q[1]} and {r[0]}")
        k = 0
        for n, v in enumerate(verts):
            while k < len(pts) and close(pts[k] + ([colour[k]] if k < len(colour) else []), v if k < len(colour) else v[:2], 1e-6, 1e-6):
                a, b = verts[max(0, n - 1)][:2], v[:2]
                if off(pts[k], a, b) > 2e-4:
                    raise Violation("wrong-xy-plot", f"{what}: {pts[k]} (colour {colour[k]}) is drawn before {v}, which the path does not visit there")
                k += 1
            if k == len(pts):
                raise Violation("wrong-xy-plot", f"{what}: vertex {n} of {len(verts)}, {v[:2]} with speed {v[2]}, is not drawn")
    if plan["points"]:
        ends = [su.flat([b])[-1][3][:2] for b in sim.blocklist]
        common.expect_equal("wrong-xy-plot", f"{what}: marked block ends", sorted(marks(ax)), sorted(ends), 1e-9, 1e-9)
    plt.close("all")


def off(p, a, b):
    """Distance of p from the segment ab (any dimension)."""
    d = [y - x for x, y in zip(a, b)]
    L2 = sum(c * c for c in d)
    w = 0.0 if L2 == 0 else min(1.0, max(0.0, sum(c * (q - x) for c, q, x in zip(d, p, a)) / L2))
    return sum((q - x - w * c) ** 2 for q, x, c in zip(p, a, d)) ** 0.5


RADIUS = 0.2


def mesh(sim, segs, plan, ctx, what):
    import numpy as np

    path = os.path.join(ctx.scratch, plan["vtk"]) if plan["vtk"] else None
    edges = []  # (position, speed) of both ends of every piece which has to be shown
    for s in segs:
        if plan["all"] or s[3][3] > s[2][3]:
            L = sum((y - x) ** 2 for x, y in zip(s[2][:3], s[3][:3])) ** 0.5
            if 0 < L < 1e-4 or 0 < s[3][3] - s[2][3] < 1e-9:
                return  # (VTK merges points which are this close)
            if L > 0:
                edges.append(s[2][:3] + [norm(s[4])] + s[3][:3] + [norm(s[5])])
    m = su.must("plot_3d", sim.plot_3d, extrusion_only=not plan["all"], vtk_path=path) if edges else None
    if m is None:
        return
    compare(m, edges, what, "mesh", np)
    if path:
        import pyvista

        compare(pyvista.read(path), edges, what, "VTK file", np)
        ctx.count("probe:VTK file read back")
    again = su.must("plot_3d", sim.plot_3d, mesh=m)
    if again is not m:
        raise Violation("wrong-mesh", f"{what}: a given mesh is not used")
    compare(m, edges, what, "given mesh", np)


def compare(m, edges, what, name, np):
    pts = np.asarray(m.points, dtype=float)
    if "velocity" not in m.point_data:
        raise Violation("wrong-mesh", f"{what}: the {name} has no velocities ({m.n_points} points, {len(edges)} pieces to show)")
    vel = np.asarray(m.point_data["velocity"], dtype=float)
    E = np.asarray(edges)
    # which mesh points surround which end of which piece
    begin = near(np, pts, vel, E[:, :4])
    end = near(np, pts, vel, E[:, 4:])
    seen = np.zeros(len(E), dtype=bool)
    conn, offset = m.cell_connectivity, m.offset
    for k in range(m.n_cells):
        ids = conn[offset[k]:offset[k + 1]]
        ok = (begin[ids] | end[ids]).all(axis=0)
        across = ok & begin[ids].any(axis=0) & end[ids].any(axis=0)
        if not ok.any():
            c = pts[ids].mean(axis=0)
            raise Violation("wrong-mesh", f"{what}: the {name} shows a piece near {c.round(3).tolist()} with speeds "
                            f"{sorted(set(vel[ids].round(3).tolist()))}, which the trajectory does not have")
        seen |= across
    if not seen.all():
        e = edges[int(np.argmin(seen))]
        raise Violation("wrong-mesh", f"{what}: the {name} does not show the piece from {e[:3]} ({e[3]} mm/s) to {e[4:7]} ({e[7]} mm/s)")


def near(np, pts, vel, ends):
    d = np.sqrt(((pts[:, None, :] - ends[None, :, :3]) ** 2).sum(axis=2))
    return (d < RADIUS + 2e-3) & (np.abs(vel[:, None] - ends[None, :, 3]) < 1e-3 + 1e-6 * np.abs(ends[None, :, 3]))


def shrinks(plan):
    yield from c11.shrinks({**plan, "boxes": [], "eunit": None})
    for key, v in (("plotint", None), ("vtk", None), ("points", False), ("all", False), ("res", 1), ("steps", "constrained"), ("lines", [False, False]),
                   ("axis", ["x"])):
        if plan[key] != v:
            yield {**plan, key: v}
    if plan["what"] == "all":
        for w in ("vel", "xy", "mesh"):
            yield {**plan, "what": w}
