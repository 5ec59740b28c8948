"""C20: pictures and animations show the states they are made from."""
import os
import shutil
import sys
import types

import numpy as np
from PIL import Image, ImageSequence
from pylattica.core import Lattice, PeriodicStructure, SimulationResult, SimulationState
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.structures.square_grid import (
    SimpleSquare2DStructureBuilder,
    SimpleSquare3DStructureBuilder,
)
from pylattica.visualization import (
    CellArtist,
    DiscreteCellArtist,
    ResultArtist,
    SquareGridArtist2D,
    SquareGridArtist3D,
)

from pylattica.visualization.helpers import color_map

from vmon.model import snapshot

PROP = "C20"
RULE = (
    "random square and rectangular grids (site IDs in any order), phases, colors, cell sizes and labels "
    "drawn to images and files, read back pixel by pixel; random histories of 1 to 24 "
    "states drawn to GIFs with any draw_freq and wait, read back frame by frame, in a "
    "working directory with the user's own files; voxels of 3D drawings recorded; color "
    "maps built from phase lists, states and results; images shown to a stand-in for a "
    "notebook. Non-trivial: 2 or more colors"
)
CASES = {"quick": 220, "thorough": 2200}
PARALLEL = True  # (to_gif draws its frames in worker processes)
REQUIRED = [
    "gifs_in_folders", "gifs_without_forking", "pixels", "images", "gif_frames", "gifs", "color_maps", "uncolored_phases",
            "files", "skipping_gifs", "custom_artists", "legends", "legend_texts", "labels", "numbers_as_phases", "many_labels", "rectangles",
            "artists_with_options", "own_legends"]
PHASES = ["A", "B", "C", "D", "VACANT", "Na+", "x y", "alive", "dead", "a", "AB"]


def make_grid(rng, n, rows=None):
    """A grid of n columns and as many (or other) rows."""
    rows = n if rows is None else rows
    if rng.random() < 0.5:
        # the first lattice vector of the square grid is y
        size = n if rows == n and rng.random() < 0.8 else (rows, n)
        return SimpleSquare2DStructureBuilder().build(size)
    vecs = [[n, 0], [0, rows]] if rng.random() < 0.7 else [[0, rows], [n, 0]]
    if rng.random() < 0.3:
        vecs = [[float(x) for x in v] for v in vecs]
    struct = PeriodicStructure(Lattice(vecs))
    cells = [(x, y) for x in range(n) for y in range(rows)]
    rng.shuffle(cells)
    for c in cells:
        struct.add_site("A", c)
    return struct


def cell_of(site):
    return tuple(int(round(x)) for x in site["_location"])


def fill(rng, struct, phases, key=DISCRETE_OCCUPANCY):
    state, cells = SimulationState(), {}
    for s in rng.sample(struct.sites(), len(struct.sites())):
        p = rng.choice(phases)
        cells[cell_of(s)] = p
        state.set_site_state(s["_site_id"], {key: p, "other": 1})
    return state, cells


def random_colors(rng, phases):
    colors = {}
    while len(colors) < len(phases):
        # (a GIF's palette may merge colors that are nearly the same)
        c = tuple(rng.randrange(16, 255, 34) for _ in range(3))
        if c not in colors.values():
            colors[phases[len(colors)]] = c
    return colors


class NumberArtist(CellArtist):
    """A user's artist: shades of a number."""

    def get_color_from_cell_state(self, cell_state):
        return (cell_state["level"] * 40, 10, 200)

    def get_cell_legend_label(self, cell_state):
        return f"level {cell_state['level']}"


def check_pixels(mon, img, cells, color_of, n, size, labelled, tol=0, **info):
    px = np.asarray(img.convert("RGB")).astype(int)
    rows = max(y for _, y in cells) + 1
    mon.require(
        px.shape[0] >= rows * size and px.shape[1] >= n * size,
        "the image is smaller than the grid",
    )
    for (x, y), p in cells.items():
        top, left = (rows - 1 - y) * size, x * size
        block = px[top : top + size, left : left + size]
        if labelled and top < 26:
            # the label is written over the image's top left corner
            block = block[max(0, 26 - top) :]
            if len(block) == 0:
                continue
        want = np.array(color_of(p))
        off = np.abs(block - want).max()
        mon.require(
            off <= tol, "a cell is drawn in another color", cell=(x, y), phase=p, want=want,
            got=block[0, 0], size=size, grid=n, **info,
        )
        mon.count("pixels", block.shape[0] * block.shape[1])


def check_legend(mon, img, n, size, present, absent, tol=0, **info):
    """Right of the grid: a swatch of every label present, none of the others."""
    px = np.asarray(img.convert("RGB")).astype(int)[:, n * size :]
    # (in small cells, the labels' text covers the swatches; black can't be seen)
    if size < 8:
        return
    for labels, there in ((present, True), (absent, False)):
        for lab, color in labels.items():
            if max(color) <= tol or (not there and color in present.values()):
                continue
            found = int((np.abs(px - np.array(color)).max(axis=2) <= tol).sum())
            mon.require(
                (found >= 0.4 * size * size) == there,
                "a legend entry has no swatch of its color" if there
                else "the legend shows a label that isn't present",
                label=lab, color=color, pixels=found, cell_size=size, **info,
            )
            mon.count("swatches")


def check_legend_text(mon, img, n, size, legend, alone):
    """Beside each swatch stands its own label, as in a legend of nothing else."""

    def strip(image, color):
        px = np.asarray(image.convert("RGB")).astype(int)[:, n * size :]
        ys, xs = np.nonzero((px == np.array(color)).all(axis=2))
        if len(ys) < 0.4 * size * size:
            return None
        # (the swatch's own columns: those with many pixels of its color)
        cols = [x for x in set(xs) if (xs == x).sum() > size / 2]
        if not cols:
            return None
        top = ys.min()
        return px[top : top + size, max(cols) + 1 :]

    legend = {
        lab: c for lab, c in legend.items()
        # (the edges of letters are grey)
        if lab.strip() and min(c) < max(c) and list(legend.values()).count(c) == 1
    }
    refs = {lab: strip(alone(lab), c) for lab, c in legend.items()}
    for lab, c in legend.items():
        mine = strip(img, c)
        if mine is None or any(r is None or r.shape != mine.shape for r in refs.values()):
            continue
        off = np.abs(mine - refs[lab]).sum()
        for other in [None, *(o for o in refs if o != lab)]:
            mon.require(
                off < np.abs(mine - (0 if other is None else refs[other])).sum(),
                "a legend's swatch hasn't its label beside it", label=lab, rather=other,
            )
            mon.count("legend_texts")


def check_label(mon, artist, state, img, size, step, others):
    """The picture is labelled with its step's number, rather than another or none."""
    px = np.asarray(img.convert("RGB")).astype(int)

    def off(label):
        kw = {"label": label} if label else {}
        ref = np.asarray(artist.get_img(state, cell_size=size, **kw).convert("RGB"))
        return np.abs(px[:26] - ref.astype(int)[:26]).sum() if px.shape == ref.shape else None

    mine = off(f"Step {step}")
    for other in [None, *(f"Step {k}" for k in others if k != step)]:
        if mine is not None:
            mon.require(
                mine < off(other), "a step's picture isn't labelled with its number",
                step=step, labelled=other,
            )
            mon.count("labels")


def image_case(rng, mon):
    n = rng.randint(1, 7) if rng.random() < 0.95 else rng.choice([16, 24])
    rows = n
    if rng.random() < 0.3:
        rows = rng.randint(1, 9)
        mon.count("rectangles")
    struct = make_grid(rng, n, rows)
    phases = rng.sample(PHASES, rng.randint(1, 5))
    if rng.random() < 0.1:
        phases = rng.sample([*PHASES, 0, 1, 7, 2.5, -3, ""], rng.randint(2, 5))
        mon.count("numbers_as_phases")
    if rng.random() < 0.08:
        phases = rng.sample(PHASES, rng.randint(8, len(PHASES)))
        mon.count("many_labels")
    size = rng.choice([1, 2, 3, 5, 8, 13, 20, 20, 24, 33])
    r = rng.random()
    legend_want = legend = None
    if r < 0.15:
        levels = rng.sample(range(6), 3)
        state, cells = fill(rng, struct, levels, "level")
        artist = NumberArtist()
        color_of = lambda p: (p * 40, 10, 200)
        legend_want = {f"level {p}": color_of(p) for p in set(cells.values())}
        mon.count("custom_artists")
    else:
        key = DISCRETE_OCCUPANCY if rng.random() < 0.8 else "kind"
        state, cells = fill(rng, struct, phases, key)
        colors = random_colors(rng, phases)
        if rng.random() < 0.3:
            for p in rng.sample(phases, rng.randint(0, len(phases))):
                del colors[p]
            if set(cells.values()) - set(colors):
                mon.count("uncolored_phases")
        kw = {} if key == DISCRETE_OCCUPANCY else {"state_key": key}
        artist = DiscreteCellArtist(dict(colors), **kw)
        if rng.random() < 0.15:
            legend = {"one": (1, 2, 3), "two": (200, 100, 50)}
            if rng.random() < 0.5:
                # none at all, or many on a small grid
                legend = {
                    f"entry {i}": (10 * i, 255 - 7 * i, rng.randrange(256))
                    for i in range(rng.choice([0, 0, 14, 25]))
                }
                mon.count("own_legends")
            artist = DiscreteCellArtist(dict(colors), legend=dict(legend), **kw)
            kw0 = kw
            legend_want = legend
        color_of = lambda p: colors.get(p, (0, 0, 0))
        if legend_want is None:
            legend_want = {str(p): color_of(p) for p in set(cells.values())}
    before = snapshot(state)
    mon.equal(
        {k: tuple(v) for k, v in artist.get_legend(state).items()},
        legend_want,
        "the legend isn't the labels present with their colors",
    )
    mon.count("legends")
    sq = SquareGridArtist2D(struct, artist)
    kw = {} if size == 20 and rng.random() < 0.5 else {"cell_size": size}
    label = "Step 3" if rng.random() < 0.3 else None
    if label:
        kw["label"] = label
    if rng.random() < 0.5:
        img = sq.get_img(state, **kw)
    else:
        name = rng.choice(["pic.png", "other name.bmp", "in a folder/pic.png"])
        if rng.random() < 0.3:
            name = os.path.join(os.getcwd(), name)
        os.makedirs("in a folder", exist_ok=True)
        sq.save_img(state, name, **kw)
        with Image.open(name) as f:
            img = f.copy()
        os.remove(name)
        os.rmdir("in a folder")
        mon.count("files")
    check_pixels(mon, img, cells, color_of, n, size, label is not None)
    absent = {}
    if r >= 0.15 and legend is None and set(legend_want) <= set(map(str, phases)):
        absent = {str(p): color_of(p) for p in phases if str(p) not in legend_want}
    check_legend(mon, img, n, size, legend_want, absent)
    if size >= 20:
        def alone(lab):
            if legend_want is legend:
                art = DiscreteCellArtist(dict(colors), legend={lab: legend[lab]}, **kw0)
                return SquareGridArtist2D(struct, art).get_img(state, cell_size=size)
            p = next(p for p in cells.values()
                     if (f"level {p}" if r < 0.15 else str(p)) == lab)
            one = SimulationState()
            for s in struct.sites():
                one.set_site_state(s["_site_id"], {"level" if r < 0.15 else key: p})
            return sq.get_img(one, cell_size=size)

        check_legend_text(mon, img, n, size, legend_want, alone)
    if r >= 0.15 and legend_want is not legend:
        # the same artist draws another state, of other phases
        state2, cells2 = fill(rng, struct, rng.sample(phases, rng.randint(1, len(phases))), key)
        want2 = {str(p): color_of(p) for p in set(cells2.values())}
        mon.equal(
            {k: tuple(v) for k, v in artist.get_legend(state2).items()}, want2,
            "an artist's legend of a second state isn't its labels with their colors",
        )
        img = sq.get_img(state2, cell_size=size)
        check_pixels(mon, img, cells2, color_of, n, size, False)
        check_legend(
            mon, img, n, size, want2,
            {str(p): color_of(p) for p in phases if str(p) not in want2}, second=True,
        )
        mon.count("second_states")
    mon.same(snapshot(state), before, "drawing a state changed it")
    mon.count("images")
    used = {color_of(p) for p in cells.values()}
    mon.describe(
        {"grid": [n, rows], "cell_size": size, "cells": sorted((c, str(p)) for c, p in cells.items())},
        nontrivial=len(used) > 1,
    )


def gif_case(rng, mon):
    n = rng.randint(4, 6)
    size = rng.choice([8, 10, 14, 20])
    rows = n if rng.random() < 0.8 else rng.randint(3, 7)
    struct = make_grid(rng, n, rows)
    phases = rng.sample(PHASES, rng.randint(2, 4))
    colors = random_colors(rng, phases)
    artist = SquareGridArtist2D(struct, DiscreteCellArtist(dict(colors)))
    state, cells = fill(rng, struct, phases)
    at = {cell_of(s): s["_site_id"] for s in struct.sites()}
    result, hist = SimulationResult(state), [cells]
    steps = rng.choice([0, 1, 2, 4, 8, 11, 12, 23] * 3 + [41])
    for _ in range(steps):
        new = dict(hist[-1])
        for c in rng.sample(sorted(new), rng.choice([0, 1, 3, n * rows])):
            new[c] = rng.choice(phases)
        result.add_step(
            {at[c]: {DISCRETE_OCCUPANCY: p} for c, p in new.items() if hist[-1][c] != p}
        )
        hist.append(new)
    if rng.random() < 0.3:
        result.load_steps(rng.randint(1, 4))
    freq = rng.choice([None, 1, 2, 3, 5])
    wait = rng.choice([None, 0.1, 0.25, 0.5, 1.2, 0.07])
    kw = {"cell_size": size}
    if freq is not None:
        kw["draw_freq"] = freq
    if wait is not None:
        kw["wait"] = wait
    os.mkdir("work")
    home = os.getcwd()
    os.chdir("work")
    try:
        mine = {"mine.txt": "keep", "tmp_pylat_step_0.png": "mine too"}
        for f, text in mine.items():
            with open(f, "w") as out:
                out.write(text)
        out, inside = "out.gif", []
        if rng.random() < 0.4:
            out, inside = "folder/my out.gif", ["my out.gif"]
            os.mkdir("folder")
            mon.count("gifs_in_folders")
        path = out if rng.random() < 0.6 else os.path.join(os.getcwd(), out)
        platform = sys.platform
        if rng.random() < 0.15:
            # (where there is no forking, frames are drawn in this process)
            sys.platform = "win32"
            mon.count("gifs_without_forking")
        try:
            ResultArtist(artist, result).to_gif(path, **kw)
        finally:
            sys.platform = platform
        mon.equal(
            (sorted(os.listdir(".")), os.listdir("folder") if inside else []),
            (sorted([*mine, out.split("/")[0]]), inside),
            "making a GIF left or removed other files, or none where it was asked for",
        )
        for f, text in mine.items():
            with open(f) as got:
                mon.equal(got.read(), text, "making a GIF changed another file")
        frames = []
        with Image.open(out) as gif:
            for fr in ImageSequence.Iterator(gif):
                frames.append((fr.convert("RGB"), fr.info.get("duration")))
    finally:
        os.chdir(home)
        shutil.rmtree(os.path.join(home, "work"))
    want = list(range(0, len(hist), freq or 1))
    if len(want) < len(hist):
        mon.count("skipping_gifs")
    # equal frames may have been joined into a longer one
    shown, each = [], (0.8 if wait is None else wait) * 1000
    for fr, dur in frames:
        times = 1 if len(want) == 1 else round((dur or 0) / each)
        mon.require(times >= 1, "a frame is shown for less time than asked for", duration=dur)
        if len(want) > 1:
            # (GIFs count time in 1/100 s)
            mon.require(
                abs(dur - times * each) <= 10 * times,
                "a frame is shown for another time than asked for",
                duration=dur, asked=each, frames=times,
            )
        shown += [fr] * times
    mon.equal(
        len(shown), len(want), "the GIF hasn't a frame for every step drawn",
        steps=len(hist), draw_freq=freq,
    )
    for i, (k, fr) in enumerate(zip(want, shown)):
        check_label(mon, artist, result.get_step(k), fr, size, k, {i, k - 1, k + 1})
        check_pixels(
            mon, fr, hist[k], colors.get, n, size, True, tol=8, step=k, frames=len(want)
        )
        there = set(hist[k].values())
        check_legend(
            mon, fr, n, size, {p: colors[p] for p in there},
            {p: colors[p] for p in phases if p not in there}, tol=8, step=k,
        )
        mon.count("gif_frames")
    mon.count("gifs")
    mon.describe(
        {"gif": len(hist), "draw_freq": freq, "grid": n, "cell_size": size,
         "first": sorted((c, p) for c, p in cells.items())},
        nontrivial=len(hist) > 1,
    )


def notebook_case(rng, mon):
    """What a notebook shows, as IPython (not installed here) is told of it."""
    n, size = rng.randint(3, 5), rng.choice([8, 12, 20])
    struct = make_grid(rng, n)
    phases = rng.sample(PHASES, rng.randint(2, 4))
    colors = random_colors(rng, phases)
    artist = SquareGridArtist2D(struct, DiscreteCellArtist(dict(colors)))
    state, cells = fill(rng, struct, phases)
    at = {cell_of(s): s["_site_id"] for s in struct.sites()}
    result, hist = SimulationResult(state), [cells]
    for _ in range(rng.choice([1, 3, 5, 12])):
        new = {c: rng.choice(phases) for c in hist[-1]}
        result.add_step({at[c]: {DISCRETE_OCCUPANCY: p} for c, p in new.items()})
        hist.append(new)
    shown = []
    package, module = types.ModuleType("IPython"), types.ModuleType("IPython.display")
    package.display = module
    module.display = lambda *imgs, **_: shown.extend(imgs)
    module.clear_output = lambda *_, **__: None
    saved = {k: sys.modules.get(k) for k in ("IPython", "IPython.display")}
    sys.modules.update({"IPython": package, "IPython.display": module})
    kw = {} if size == 20 and rng.random() < 0.5 else {"cell_size": size}
    how = rng.choice(["state", "step", "step", "play"])
    labelled = True
    try:
        if how == "state":
            k = rng.randrange(len(hist))
            artist.jupyter_show(result.get_step(k), **kw)
            want, labelled = [k], False
        elif how == "step":
            want = [rng.randrange(len(hist)) for _ in range(3)]
            for k in want:
                ResultArtist(artist, result).jupyter_show_step(k, **kw)
        else:
            ResultArtist(artist, result).jupyter_play(wait=0, **kw)
            want = list(range(len(hist)))
    except ImportError:
        return  # (made for another part of IPython than this stands in for)
    finally:
        for k, v in saved.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    mon.equal(len(shown), len(want), "a notebook isn't shown every step asked for", how=how)
    for i, (k, img) in enumerate(zip(want, shown)):
        check_pixels(mon, img, hist[k], colors.get, n, size, labelled, step=k, how=how)
        if labelled:
            check_label(mon, artist, result.get_step(k), img, size, k, {i, k - 1, k + 1})
    mon.count("notebook_images", len(shown))
    mon.describe({"notebook": how, "steps": want, "grid": n, "cell_size": size,
                  "first": sorted((c, p) for c, p in cells.items())})


def color_case(rng, mon):
    phases = rng.sample(
        PHASES + [f"phase {i}" for i in range(12)], rng.choice([1, 2, 9, 15, 17, 18, 19, 20, 20])
    )
    struct = make_grid(rng, rng.choice([2, 8, 10, 10]))
    state, cells = fill(rng, struct, phases)
    present = set(cells.values())
    how = rng.choice(["list", "state", "result", "helper"])
    if rng.random() < 0.08:
        # more phases than there are colors: all of them have one
        many = [f"many {i}" for i in range(rng.choice([21, 25, 45]))]
        if rng.random() < 0.5:
            got = DiscreteCellArtist.from_phase_list(many).color_map
        else:
            got = color_map(many)
        mon.equal(sorted(got), sorted(many), "not every phase has a color")
        mon.require(len(set(map(tuple, got.values()))) >= 20, "fewer than 20 colors are used")
        mon.count("many_phases")
    # what is asked for besides goes to the artist
    kw, key = {}, DISCRETE_OCCUPANCY
    if rng.random() < 0.3:
        kw["legend"] = {"mine": (9, 8, 7)}
    if how == "list" and rng.random() < 0.3:
        kw["state_key"] = key = "kind"
    if how == "helper":
        # (the drawing helper's own mapping)
        artist, expect = DiscreteCellArtist(color_map(list(phases)), **kw), set(phases)
    elif how == "list":
        artist, expect = DiscreteCellArtist.from_phase_list(list(phases), **kw), set(phases)
    elif how == "state":
        artist, expect = DiscreteCellArtist.from_discrete_state(state, **kw), present
    else:
        result = SimulationResult(state)
        expect = set(present)
        for _ in range(rng.choice([0, 2, 10])):
            sid, p = rng.choice(struct.site_ids), rng.choice(phases)
            result.add_step({sid: {DISCRETE_OCCUPANCY: p}})
            expect.add(p)
        artist = DiscreteCellArtist.from_discrete_result(result, **kw)
    got = {p: tuple(artist.get_color_from_cell_state({key: p})) for p in expect}
    if kw:
        other, _ = fill(rng, struct, sorted(expect), key)
        legend = kw.get("legend") or {
            s[key]: got[s[key]] for s in (other.get_site_state(i) for i in struct.site_ids)
        }
        mon.equal(
            {k: tuple(v) for k, v in artist.get_legend(other).items()}, legend,
            "an artist made for phases hasn't the legend or the key asked for", how=how,
        )
        mon.count("artists_with_options")
    mon.equal(len(set(got.values())), len(expect), f"two phases share a color ({how})", got=got)
    for p, c in got.items():
        mon.require(
            len(c) == 3 and all(0 <= v <= 255 for v in c) and c != (0, 0, 0),
            "a phase has no color", phase=p, color=c,
        )
    mon.equal(
        tuple(artist.get_color_from_cell_state({key: "nothing of the kind"})),
        (0, 0, 0),
        "an unknown phase isn't black",
    )
    mon.count("color_maps")
    mon.describe({"colors": how, "phases": sorted(expect)}, nontrivial=len(expect) > 1)


def cube_case(rng, mon):
    """The voxels a 3D drawing fills, as matplotlib is told of them."""
    from mpl_toolkits.mplot3d import Axes3D

    n = [rng.randint(1, 4)] * 3
    if rng.random() < 0.5:
        n = [rng.randint(1, 4) for _ in range(3)]
    # the first two lattice vectors of the grid are y and x
    struct = SimpleSquare3DStructureBuilder().build(
        n[0] if n == [n[0]] * 3 else (n[1], n[0], n[2])
    )
    kw = {"shell_only": True} if rng.random() < 0.4 else {}
    phases = rng.sample(PHASES, rng.randint(1, 3))
    state, cells = fill(rng, struct, phases)
    colors = random_colors(rng, phases)
    calls, original = [], Axes3D.voxels

    def voxels(self, *args, facecolors=None, **kw):
        calls.append((np.array(args[-1]) if args else None, facecolors))
        return original(self, *args, facecolors=facecolors, **kw)

    Axes3D.voxels = voxels
    try:
        img = SquareGridArtist3D(struct, DiscreteCellArtist(dict(colors))).get_img(state, **kw)
    finally:
        Axes3D.voxels = original
    px = np.asarray(img.convert("RGB"))
    mon.require(len(np.unique(px.reshape(-1, 3), axis=0)) > 1, "the 3D drawing is blank")
    drawn = {}
    for filled, color in calls:
        color = np.asarray(color, dtype=float) if color is not None else None
        if filled is None or color is None or color.shape not in ((3,), (4,)):
            return  # drawn in some other way: nothing to see here
        if color.shape == (4,) and color[3] < 0.5:
            solid = False
        else:
            solid = True
        for c in zip(*np.nonzero(filled)):
            c = tuple(int(x) for x in c)
            if solid:
                mon.require(c not in drawn, "a cell is drawn twice", cell=c)
                drawn[c] = tuple(int(round(v * 255)) for v in color[:3])
    if not calls:
        return
    want = {c: colors[p] for c, p in cells.items()}
    if kw:
        # the faces that are seen from the front, the right and above
        want = {
            c: v for c, v in want.items() if c[1] == 0 or c[0] == n[0] - 1 or c[2] == n[2] - 1
        }
        mon.count("shells")
    mon.equal(drawn, want, "a cell of the cube has another color")
    mon.count("cubes")
    mon.describe({"cube": n, "cells": sorted(cells.items())}, nontrivial=len(set(drawn.values())) > 1)


def case(rng, mon):
    r = rng.random()
    if r < 0.48:
        image_case(rng, mon)
    elif r < 0.75:
        gif_case(rng, mon)
    elif r < 0.81:
        notebook_case(rng, mon)
    elif r < 0.92:
        color_case(rng, mon)
    else:
        cube_case(rng, mon)
