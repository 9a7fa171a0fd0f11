"""C02: storage faults surface and never yield a wrong or partial graph."""
import json

from sim import core, seams, world as W, hist, inject
from sim.core import Violation, fork_call
from sim.props.c01 import encoder, pick_root, write_doc
from sim.storage import Disk, DiskFault, DiskClosed, READ_ERRORS

import gemd.json as gj
from gemd.util import set_uuids, substitute_links

ID = "C02"
RUNS = {"quick": 10000, "thorough": 120000}
RULE = "digest of the event log (operations, injected faults, outcomes, document bytes); a run is " \
       "non-trivial if at least one injected fault fired and a later load was checked"
STATE_MEASURE = "distinct (operation, fault kind, where it fired, outcome) tuples"
REAL = ["all of gemd (entities, util, json)", "pint", "json", "io text and buffer layers"]
STUB = ["raw file I/O (in-memory disk with injected errors)", "entropy", "clock"]
ASSUMPTIONS = [
    "corruption that still is a well-formed document (a flipped bit inside a text, a mix of two "
    "versions) is not detectable: documents carry no checksum",
    "identifiers are unique within a document"]
PROBES = ["write error inside dump", "same uids, other content", "link not resolved across "
          "documents", "load retry ok", "dump retry ok", "unserialisable", "interrupt in load",
          "interrupt in dump"]

W_FAULTS = ["enospc", "write_eio", "write_pipe", "write_timeout", "write_denied", "write_again",
            "write_closed", "write_intr", "fsync_eio", "interrupt_in_write", "short_writes",
            "line:interrupt", "line:memory"]
R_FAULTS = ["read_eio", "read_timeout", "read_denied", "read_closed", "bad_utf8", "interrupt_in_read", "short_reads", "line:interrupt", "line:memory",
            "cut", "zeros", "zero_hole", "trailing", "empty", "poison"]
BUILD = dict(hist.OPS, unlink=3)


def gen(r, tier):
    ops = hist.gen_ops(r, r.randrange(4, 16), BUILD)
    tail = []
    for _ in range(r.randrange(4, 14)):
        c = r.random()
        o = {"r": r.getrandbits(40)}
        if c < 0.35:
            o.update(op="dump", doc=r.choice("abcd"),
                     fault=r.choice(W_FAULTS) if r.random() < 0.6 else None)
        elif c < 0.42:
            o.update(op="dump_bad")
        elif c < 0.5:
            o.update(op="dump_links", doc=r.choice("abcd"))
        elif c < 0.58:
            o.update(op="twist", doc=r.choice("abcd"))
        elif c < 0.88:
            o.update(op="load", fault=r.choice(R_FAULTS) if r.random() < 0.75 else None)
        else:
            o.update(hist.gen_op(r, BUILD))
        tail.append(o)
    return {"ops": ops + tail, 
            "derive": r.getrandbits(40) if r.random() < 0.2 else 0}


def shrinkable(trace):
    return [["ops"]]


class Unserialisable:
    pass


def bad_root(w, r):
    """A container with something that JSON cannot express, somewhere; entities around it."""
    bad = r.choice([Unserialisable(), {1, 2}, 1j, b"bytes", Unserialisable, object()])
    ents = r.sample(w.ents, min(len(w.ents), r.randrange(0, 5)))
    c = r.randrange(4)
    if c == 0:
        return ents + [bad]
    if c == 1:
        return {"a": ents, "b": [bad]}
    if c == 2:
        return [bad] + ents
    return [ents, [[bad]]]


def run(trace):
    env = seams.Env(core.derive(trace["seed"], "env")).install()
    W.derive(trace.get("derive"))
    stats, states, log = core.Stats(), set(), []
    disk = Disk()
    w = W.World()
    acked = {}      # name -> expected graph
    raw = {}        # name -> bytes as acknowledged
    fired_any = checked_after = False

    def note(op, fault, where, outcome):
        states.add("%s|%s|%s|%s" % (op, fault, where, outcome))
        log.append([op, fault, where, outcome])

    def verify(name, r):
        nonlocal checked_after
        if r.random() < 0.6:
            got = encoder(r).load(disk.open_read(name, r))
        else:
            got = encoder(r).loads(disk.read_bytes(name).decode())
        d = W.diff(acked[name], W.graph_snap(got))
        if d:
            raise Violation("wrong-graph", "document %s does not load to what was written:\n  %s"
                            % (name, "\n  ".join(d)))
        if fired_any:
            checked_after = True

    def ack(name, root):
        gs = W.graph_snap(root)
        acked[name] = W.expected_after_load(gs)
        raw[name] = disk.durable[name]
        hist.note_uids(w)

    for op in trace["ops"]:
        stats.hit("steps")
        env.clock.now += 0.5
        r = core.rng("o", op["r"])
        fault = op.get("fault")
        if op["op"] == "dump":
            stats.hit("op:dump")
            root, enc = pick_root(w, r), encoder(r)
            name = op["doc"]
            before = disk.durable.get(name)
            if fault is None:
                write_doc(disk, name, root, r, enc)
                ack(name, root)
                note("dump", None, None, "ok")
                continue
            failed = None
            where = None
            if fault.startswith("line:"):
                lf = inject.LineFault(inject.position(r), inject.EXC[fault[5:]]("injected"))
                try:
                    with lf:
                        write_doc(disk, name, root, r, enc)
                except (core.SimInterrupt, MemoryError) as e:
                    failed = e
                where = lf.fired
                if where:
                    stats.hit("fault:" + fault)
                    stats.hit("probe:interrupt in dump")
            else:
                disk.arm = {"kind": fault, "at": r.choice([0, 1, 40, r.randrange(3000),
                                                           r.randrange(20000)])}
                try:
                    write_doc(disk, name, root, r, enc,
                              buffered=False if fault in ("write_again", "write_intr") else None)
                except (DiskFault, DiskClosed, KeyboardInterrupt) as e:
                    failed = e
                    if any("gemd_json" in f for f in core.gemd_frames(e)):
                        stats.hit("probe:write error inside dump")
                disk.arm = None
                fired, disk.fired = disk.fired, []
                if fired:
                    stats.hit("fault:" + fault)
                    where = "yes"
            should = where is not None and fault != "short_writes"
            fired_any = fired_any or where is not None
            if should and failed is None:
                raise Violation("fault-swallowed", "%s during a dump was not reported" % fault)
            if not should and failed is not None:
                raise Violation("spurious", "dump failed without a fault: %r" % failed)
            note("dump", fault, where, "raised" if failed is not None else "ok")
            if failed is not None:
                if disk.durable.get(name) != before:
                    raise core.HarnessError("protocol broke")
                # the fault has stopped: the first retry has to succeed
                write_doc(disk, name, root, r, enc)
                ack(name, root)
                verify(name, r)
                stats.hit("probe:dump retry ok")
            else:
                ack(name, root)
        elif op["op"] == "dump_bad":
            stats.hit("op:dump_bad")
            root = bad_root(w, r)
            fp = disk.open_write("scratch", r, buffered=False)
            try:
                encoder(r).dump(root, fp)
            except (TypeError, ValueError) as e:
                note("dump_bad", None, None, type(e).__name__)
            else:
                raise Violation("unserialisable", "dump of %r was acknowledged" % type(root))
            fp.flush()
            left = disk.read_bytes("scratch")
            if left:
                raise Violation("partial-write", "a dump that cannot be serialised wrote %d bytes"
                                % len(left))
            disk.volatile.pop("scratch", None)
            stats.hit("probe:unserialisable")
            hist.note_uids(w)
        elif op["op"] == "dump_links":
            # one entity whose references are links to things that are in other documents only
            if not w.ents:
                continue
            stats.hit("op:dump_links")
            e = w.pick(r)
            set_uuids(e, "auto")
            hist.note_uids(w)
            root = substitute_links(e)
            if r.random() < 0.3:
                root = [root]
            write_doc(disk, op["doc"], root, r, encoder(r))
            ack(op["doc"], root)
            note("dump_links", None, None, "ok")
            if '["link", ' in core.canon(acked[op["doc"]]):
                stats.hit("probe:link not resolved across documents")
        elif op["op"] == "twist":
            # same identifiers, other content: edit a loaded copy of a document, write it elsewhere
            if not acked:
                continue
            stats.hit("op:twist")
            src = r.choice(sorted(acked))
            got = encoder(r).loads(raw[src].decode())
            ents = W.reach(got)
            for e in r.sample(ents, min(len(ents), 3)):
                e.tags = ["twisted", str(r.randrange(10 ** 6))]
                if r.random() < 0.5 and W.kind_of(e) != "IngredientRun":
                    e.name = "twisted %d" % r.randrange(10 ** 6)
            write_doc(disk, op["doc"], got, r, encoder(r))
            ack(op["doc"], got)
            stats.hit("probe:same uids, other content")
            note("twist", None, None, "ok")
        elif op["op"] == "load":
            if not acked:
                continue
            stats.hit("op:load")
            name = r.choice(sorted(acked))
            if fault is None:
                verify(name, r)
                note("load", None, None, "ok")
                continue
            fired_any = damaged_load(fault, disk, name, raw, acked, r, stats, note) or fired_any
            verify(name, r)
            stats.hit("probe:load retry ok")
        else:
            log.append(hist.apply(w, op, stats))
    # quiescence: every acknowledged document is intact and loads, and dumps still work
    r = core.rng("end", trace["seed"])
    for name in sorted(acked):
        if disk.durable[name] != raw[name]:
            raise core.HarnessError("acknowledged bytes changed")
        verify(name, r)
    root = list(w.ents)
    write_doc(disk, "z", root, r, gj)
    ack("z", root)
    verify("z", r)
    stats.hit("simtime", disk.simtime)
    return {"digest": core.digest(log), "stats": stats, "states": states,
            "nontrivial": fired_any and checked_after, "log": log}


def damaged_load(fault, disk, name, raw, acked, r, stats, note):
    """Load with a fault; anything but an error is a violation once the fault has fired."""
    data = raw[name]
    enc = encoder(r)
    where = "yes"
    must = True
    got = failed = None
    if fault.startswith("line:"):
        lf = inject.LineFault(inject.position(r), inject.EXC[fault[5:]]("injected"))
        try:
            with lf:
                got = enc.load(disk.open_read(name, r)) if r.random() < 0.5 \
                    else enc.loads(data.decode())
        except (core.SimInterrupt, MemoryError) as e:
            failed = e
        where = lf.fired
        must = where is not None
        if where:
            stats.hit("probe:interrupt in load")
    elif fault in READ_ERRORS + ["interrupt_in_read", "short_reads"]:
        disk.arm = {"kind": fault, "at": r.choice([0, r.randrange(len(data) + 1)])}
        try:
            got = enc.load(disk.open_read(name, r))
        except (DiskFault, DiskClosed, KeyboardInterrupt) as e:
            failed = e
        disk.arm = None
        fired, disk.fired = disk.fired, []
        where = "yes" if fired else None
        must = bool(fired) and fault != "short_reads"
    else:
        data = damage(fault, data, r)
        disk.volatile["damaged"] = bytearray(data)
        try:
            if r.random() < 0.5:
                got = enc.load(disk.open_read("damaged", r))
            else:
                got = enc.loads(data.decode())
        except Exception as e:  # noqa
            failed = e
        disk.volatile.pop("damaged")
    if where:
        stats.hit("fault:" + fault)
    if must and failed is None:
        raise Violation("damage-accepted", "load returned %s although the document was damaged: %s"
                        % (type(got).__name__, fault))
    if not must:
        if failed is not None:
            raise Violation("spurious", "load failed without damage: %r" % failed)
        d = W.diff(acked[name], W.graph_snap(got))
        if d:
            raise Violation("wrong-graph", "document %s loaded wrongly (%s):\n  %s"
                            % (name, fault, "\n  ".join(d)))
    note("load", fault, where, type(failed).__name__ if failed is not None else "ok")
    return where is not None


def damage(fault, data, r):
    n = len(data)
    if fault == "empty":
        return b""
    if fault == "cut":
        return data[:r.choice([r.randrange(n), n - 1, max(0, n - 2)])]
    if fault == "zeros":
        k = r.choice([r.randrange(n), n - 1])
        return data[:k] + b"\0" * (n - k)
    if fault == "zero_hole":
        k = r.randrange(n)
        m = r.randrange(1, min(n - k, 512) + 1)
        return data[:k] + b"\0" * m + data[k + m:]
    if fault == "bad_utf8":
        k = r.randrange(n)
        return data[:k] + b"\xff" + data[k + 1:]
    if fault == "trailing":
        return data + r.choice([b"x", b"\0", data, b"}", b"{}", b" null", data[:20] or b"{"])
    if fault == "poison":
        # well-formed JSON whose last entity is not a valid one
        doc = json.loads(data)
        doc["context"].append(r.choice([
            {"type": "no_such_type"}, {"type": "material_run"},
            {"type": "nominal_real", "nominal": 1.0, "units": "no such unit"},
            {"type": "process_run", "name": "p", "spec": 7},
            {"type": "condition_template", "name": "c", "bounds": None}]))
        return json.dumps(doc, sort_keys=True).encode()
    raise core.HarnessError(fault)


def execute(trace):
    return fork_call(run, trace)
