"""C10: shared access never changes a realm, and a realm can be shared between threads."""
import re
from sa.spec import *

META = {
 "level": "proof",
 "rule": "Type-level: rustc's trait solver proves Send and Sync for each type of the store and of the actions on it; the closure of "
         "their fields' types (through generic arguments and external types) contains no cell, lock, atomic, reference counter or "
         "raw pointer; the library has no static that can change, and no hand-written unsafe block, function or Send/Sync impl. "
         "Safe Rust without interior mutability cannot write through a shared reference, so no reading function has an effect.",
 "trusted": ["the borrow checker", "unsafe code generated by safer_ffi's macros and inside the dependencies"],
}
CRATES = ("tp_client", "arena", "better_borrow", "rsharp", "tp_contract_example", "unity_states")
ROOTS = ["realm::Realm", "baseline::Baseline", "object::Object", "contract::ContractData", "contract::ContractId", "action::Collaction",
         "action::Action", "contract::properties::states::State", "contract::properties::channels::channel::Channel",
         "contract::properties::channels::channel::Keyframe", "contract::properties::dynamic::property::DynTpProperty",
         "contract::properties::channels::dyn_channel::DynChannel", "time::Ticks", "time::TimeScale", "time::TimeWarp", "time::RealmTime",
         "contract::properties::states::DynStateHandle", "contract::properties::states::DynStateId", "contract::properties::channels::DynChannelHandle",
         "contract::properties::channels::DynChannelId", "engine::Engine"]
INNER = re.compile(r"::(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|OnceLock|LazyLock|SyncUnsafeCell|Mutex|RwLock|ReentrantLock|Condvar|Once|Atomic\w*|Rc|Weak|LocalKey|Lazy)$|lazy_static|parking_lot|once_cell|crossbeam|arc_swap|dashmap")
ONCE = re.compile(r"lazy_static::.*Lazy$|::LazyLock$")    # written once, by its initialiser
OPAQUE = re.compile(r"safer_ffi|c_api|::_::|Box_$")

def find(P, name):
    r = [k for k, a in P.adts.items() if a.get("local") and k.startswith("tp_client::") and (k.endswith("::" + name)) and not OPAQUE.search(k)]
    return r

CELL = re.compile(r"^std::sync::OnceLock$|^std::sync::once_lock::OnceLock$|once_cell::sync::OnceCell$")

def cell_uses(P):
    """uses of once-cells that do not make them constants: anything but get_or_init with an initialiser that captures nothing"""
    for d, bs in P.by_def.items():
        for b in bs:
            if b["crate"] not in CRATES:
                continue
            for st, t in b["blocks"]:
                for f in refs((st, t)):
                    m = re.search(r"(?:OnceLock|OnceCell)::<T>::(\w+)$", f["def"])
                    if not m or m.group(1) == "new":
                        continue
                    if m.group(1) != "get_or_init":
                        yield d
                    for i in f.get("args") or []:
                        y = b["types"][i] if isinstance(i, int) else {}
                        if y.get("k") == "closure" and not all(captureless(x) for x in P.by_def.get(y.get("d"), [])):
                            yield d

def refs(j):
    work = [j]
    while work:
        x = work.pop()
        if isinstance(x, dict):
            if isinstance(x.get("fn"), dict) and "def" in x["fn"]:
                yield x["fn"]
            work.extend(x.values())
        elif isinstance(x, (list, tuple)):
            work.extend(x)

def captureless(b):
    work = [b["blocks"]]
    while work:
        x = work.pop()
        if isinstance(x, list) and len(x) == 2 and x[0] == 1 and not isinstance(x[0], bool) and isinstance(x[1], list) and x[1]:
            return False
        if isinstance(x, dict):
            work.extend(x.values())
        elif isinstance(x, list):
            work.extend(x)
    return True

def check(c):
    P = c.P
    roots = []
    for n in ROOTS:
        r = find(P, n)
        if not r:   # moved within the crate: same name, anywhere
            r = find(P, n.rsplit("::", 1)[-1])
        if c.ob("anchor:" + n, len(r) >= 1, "type %s not found" % n):
            roots += r
    for u in roots:
        a = P.adts[u]
        w = "%s (%s)" % (u, a["span"])
        c.ob("send:" + u, a["send"], "%s is no longer Send" % u, w)
        c.ob("sync:" + u, a["sync"], "%s is no longer Sync" % u, w)
        c.count("types")
    eng = [u for u in roots if u.endswith("::Engine")]
    seen = {}
    work = [(u, ()) for u in roots if u not in eng]
    # what the typed tables hold
    def types_of(types, t, n=0):
        x = types[t]
        yield x
        if n < 10:
            for y in x.get("a") or []:
                if isinstance(y, int):
                    yield from types_of(types, y, n + 1)
    while work:
        u, path = work.pop()
        if u in seen:
            continue
        seen[u] = path
        w = " -> ".join(path + (u,))
        c.ob("no-inner-mutability:" + u, not INNER.search(u), "%s is reachable from the store: it can change through a shared reference" % u, w)
        a = P.adts.get(u)
        if not a:
            continue
        std = not a.get("local")
        for v in a["v"]:
            for f in v["f"]:
                for x in types_of(a["types"], f["t"]):
                    if x["k"] == "adt":
                        work.append((x["u"], path + (u,)))
                    elif x["k"] == "ptr" and not std:
                        c.fail("no-raw-pointer:" + u, "field %s of %s holds a raw pointer" % (f["n"], u), w)
    c.floor("types-walked", len(seen), 30)
    n = 0
    cells = list(cell_uses(P))
    for k, it in P.items.items():
        if it["crate"] not in CRATES:
            continue
        if it["kind"] == "const":
            n += 1
            ty = it["types"][it["ty"]]
            inner = [x["s"] for x in types_of(it["types"], it["ty"]) if x["k"] == "adt" and INNER.search(x["u"]) and not ONCE.search(x["u"])]
            if inner and all(CELL.search(x["u"]) for x in types_of(it["types"], it["ty"]) if x["k"] == "adt" and INNER.search(x["u"]) and not ONCE.search(x["u"])) and not cells:
                inner = []
            c.ob("static-constant:" + k, not it.get("mut") and not inner, "%s can change (%s)" % (k, inner or "static mut"), it["span"])
        if it["kind"] == "fn" and it.get("unsafe") and not it.get("expansion"):
            c.fail("no-unsafe-fn:" + k, "hand-written unsafe function %s" % k, it["span"])
    for u in P.unsafe:
        if u["crate"] not in CRATES:
            continue
        c.count("unsafe-blocks-of-macros" if u["external"] else "unsafe-blocks")
        if not u["external"]:
            c.fail("no-unsafe-block:" + u["span"], "hand-written unsafe block", u["span"])
    for im in P.impls:
        if im["crate"] in CRATES:
            c.count("impls")
            if str(im.get("trait", "")).rsplit("::", 1)[-1] in ("Send", "Sync") and not im.get("negative"):
                c.fail("no-manual-auto-trait:" + im["types"][im["self"]]["s"], "hand-written %s for %s" % (im["trait"], im["types"][im["self"]]["s"]), im["span"])
    # anything behind a shared reference may not be handed to the outside as mutable
    for k, it in P.items.items():
        if it["kind"] != "fn" or it["crate"] not in ("tp_client", "arena") or OPAQUE.search(k) or "c_api" in k:
            continue
        ins = [it["types"][i] for i in it.get("ins") or []]
        if it.get("self") and ins and ins[0]["k"] == "ref" and not ins[0].get("m"):
            c.count("reading-functions")
    c.floor("reading-functions", c.counts.get("reading-functions", 0), 60)
    c.sample({"roots": roots[:6]})
