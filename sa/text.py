"""Text as far as the source fixes it: the string a term of string type denotes, or None."""
from sa.spec import *
from sa.interp import UNIT

PASS = ("to_string", "to_owned", "into", "from", "clone", "must_use", "format", "as_str", "into_string", "into_boxed_str", "as_ref", "borrow", "deref",
        "new_display", "into_owned", "from_str", "as_mut_str", "to_str", "unwrap", "default_display")

def hexed(t):
    while t[0] in ('ref', '&'):
        t = t[1]
    if t[0] == 'const' and isinstance(t[1], str) and t[1].startswith("b:"):
        return bytes.fromhex(t[1][2:])
    return None

def listed(t):
    while t[0] in ('ref', '&', '*'):
        t = t[1]
    if t[0] == 'a' and t[1] == 'R':
        return list(t[3])
    if t[0] == 'vec' and isinstance(t[1], tuple):
        return list(t[1])
    return None

def strings(I, st, callee, name, args):
    """calls that build a String piece by piece, for a model's `leaf`"""
    if "String" not in name:
        return None
    u = name.rsplit("::", 1)[-1]
    own = "string::String::" in name
    if own and u in ("new", "with_capacity"):
        return [(st, ('s', ''))]
    if len(args) == 1 and (u == "from" and "String as" in name or own and u in ("as_str", "into_string", "into_boxed_str")):
        return [(st, ('call', "std::string::String::from", (), (I.argterm(st, args[0]),)))]
    if len(args) == 2 and (own and u in ("push_str", "push") or u in ("add_assign", "write_str") and "String as" in name) and args[0][0] == '&':
        old = I.read(st, args[0][1], args[0][2])
        I.store(st, args[0], ('call', "std::string::String::add", (), (old, I.argterm(st, args[1]))), 'add')
        return [(st, UNIT)]
    return None

def template(b, args):
    """rustc's encoding of a format string's pieces (nightly): literals, placeholders without options"""
    out, i, nxt = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode())
            i += n
        elif n == 0x80:
            k = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + k].decode())
            i += k
        else:
            if n & 7:       # width, precision, flags: not plain text
                return None
            if n & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            if nxt >= len(args):
                return None
            s = text(args[nxt])
            if s is None:
                return None
            out.append(s)
            nxt += 1
    return "".join(out)

def text(t):
    t = peel(t)
    while t[0] in ('ref', '&', '*', 'old'):
        t = t[1]
    if t[0] == 's':
        return t[1]
    if t[0] != 'call':
        return None
    m = t[1].rsplit("::", 1)[-1]
    a = t[3]
    if "fmt::Arguments" in t[1]:
        if m == "new" and len(a) == 2:
            b, l = hexed(a[0]), listed(a[1])
            return None if b is None or l is None else template(b, l)
        if m in ("from_str", "new_const", "from_str_nonconst") and a:
            return text(a[0])
        return None
    if "fmt::rt::Argument" in t[1]:
        return text(a[0]) if m == "new_display" else None
    if m in ("concat", "join") and a:
        l = listed(a[0])
        if l is None:
            return None
        ss = [text(x) for x in l]
        sep = text(a[1]) if len(a) > 1 else ""
        return None if None in ss or sep is None else sep.join(ss)
    if m == "add" and len(a) == 2:
        x, y = text(a[0]), text(a[1])
        return None if x is None or y is None else x + y
    if m == "new" and not a and "String" in t[1]:
        return ""
    if m in PASS and a:
        return text(a[0])
    return None
