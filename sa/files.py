"""The files and directories of spaces and models (C23)."""
import re
from .engine import Spec, Outcome, V, G, K
from .catalog import commit_txn

TASK = "engine::fractal::mgr::GenericTask"
RX_FS = re.compile(r"^(std|tokio)::fs::(\w+)$")
RX_FUT = re.compile(r"^tokio::fs::(\w+)::\{closure#\d+\}$")
RX_FILE = re.compile(r"^(std|tokio)::fs::File::(create|create_new|open|set_len|create_buffered|open_buffered)$")
RX_OPT = re.compile(r"^(std|tokio)::fs::OpenOptions::(\w+)$|^std::fs::File::(options)$|^<std::fs::OpenOptions as std::os::unix::fs::OpenOptionsExt>::(\w+)$")
RX_SEND = re.compile(r"mpsc::\w*Sender::<T>::send$")
# what makes another path of a path
RX_OP = re.compile(r"^std::path::Path(?:Buf)?::(parent|join|push|pop|with_\w+|set_\w+|strip_prefix|file_\w+|extension|canonicalize|ancestors|components|iter)$|^std::string::String::(push|push_str|pop|insert|insert_str|truncate|replace_range|remove|drain|split_off|clear|retain|extend)$|str::<impl str>::(replace\w*|r?split\w*|trim\w*|strip_\w+|to_\w+case|repeat|get\w*|lines|chars|bytes)$|^core::str::traits::<impl .*Index\w*<.*>::index\w*$|<std::string::String as std::ops::(Add|AddAssign|Index)\w*<.*>>::\w+$|slice::<impl \[.*\]>::(join|concat)$")
EFFECT = {"create_dir", "create_dir_all", "remove_dir", "remove_dir_all", "remove_file", "rename", "copy", "write", "hard_link", "soft_link", "set_permissions", "read", "read_to_string"}
NAMES = ("sname", "suuid", "mname", "muuid")
SELF = {"sname", "suuid"}
OBJ = ("engine::core::space::Space", "engine::core::model::ModelData")


def text(v):
    """the characters of a literal"""
    d = 6
    while v is not None and v[0] == "bx" and d:
        v = v[1]
        d -= 1
    if v is not None and v[0] == "s" and v[1] and all(x is not None and x[0] == "k" for x in v[1]):
        try:
            return bytes(x[1] for x in v[1]).decode()
        except (ValueError, UnicodeDecodeError):
            return None
    return None


class Files(Spec):
    """paths are followed as the text they are made of, with `{sname}` etc. for the names and ids in it"""
    name = "files"
    tagging = True
    str_consts = True
    promoted = True
    field_tags = {
        ("engine::core::util::EntityID", "sp"): "sname", ("engine::core::util::EntityID", "ep"): "mname",
        ("engine::core::util::EntityIDRef", "sp"): "sname", ("engine::core::util::EntityIDRef", "ep"): "mname",
        ("engine::ql::ddl::crt::CreateSpace", "space_name"): "sname", ("engine::ql::ddl::drop::DropSpace", "space"): "sname",
        ("engine::core::space::Space", "uuid"): "suuid", ("engine::core::model::ModelData", "uuid"): "muuid",
    }

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}
        self.seen = {}      # (what, path) -> where
        self.sites = set()
        self.apart = set()      # analysed on their own

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def val(self, ctx, v, d=8):
        while v is not None and d and v[0] in ("r", "bx"):
            v = ctx.eng.read_path(ctx.env, v[1], v[2]) if v[0] == "r" else v[1]
            d -= 1
        return v

    def path(self, ctx, v):
        """what a path is made of"""
        w = self.val(ctx, v)
        t = text(w)
        if t is not None:
            return t
        ts = sorted(x for x in ctx.eng.tags(ctx.env, v) if x[0] not in "#%")
        ps = [x for x in ts if x.startswith("P:")]
        if len(ps) == 1:
            return ps[0][2:]
        ids = [x for x in ts if x in ("suuid", "muuid")]        # a space or model found by a name has an id of its own
        ts = ids or [x for x in ts if not x.startswith(("A:", "F:"))]
        if len(ts) == 1:
            return "{%s}" % ts[0]
        return "{?}"

    def kind(self, c):
        p = c.path or ""
        if c.inst is not None:
            return None
        m = RX_FS.search(p)
        if m and m.group(2) in EFFECT:
            return "fut" if m.group(1) == "tokio" else m.group(2)
        if RX_FUT.search(p):
            return "poll"
        if RX_FILE.search(p):
            return RX_FILE.search(p).group(2)
        if RX_OPT.search(p):
            return "opt"
        if RX_SEND.search(p) and TASK in str(c.selfty):
            return "send"
        if re.search(r"^uuid::.*Uuid>?::(new_v4|now_v7|new_v7|new_v1|now_v1|now_v6)$", p):
            return "fresh"
        if p == "std::fmt::Arguments::<'a>::new":
            return "format"
        if re.search(r"fmt::rt::Argument::<'_>::new_display$", p):
            return "arg"
        if RX_OP.search(p):
            return "op"
        if re.search(r"hash_map::Iter<'a, K, V> as std::iter::Iterator>::next$|hash_map::IterMut<'a, K, V> as std::iter::Iterator>::next$", p):
            return "next"
        return None

    def is_event_call(self, c):
        k = self.kind(c)
        if k == "format" or k == "arg" or k == "next" or k == "opt" or k == "op" or k == "fresh" or k == "read" or k == "read_to_string":
            return k in ("opt", "fresh")
        return k is not None or bool(commit_txn(c))

    def made(self, st):
        """a space or model that comes into being: the operand that becomes its id"""
        if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and st[2][1].get("adt") in OBJ:
            for f, o in zip(self.prog.adts[st[2][1]["adt"]]["variants"][0]["f"], st[2][2]):
                if f[0] == "uuid":
                    return o
        return None

    def has_stmt_event(self, inst):
        return self.reads_tagged(inst) or any(self.made(s) for b in inst.body.blocks if not b.get("cl") for s in b["s"])

    def stop(self, inst):
        return inst.id in self.apart

    def on_call(self, ctx, c, args):
        t = commit_txn(c)
        if t:
            return self.commit(ctx, t)
        k = self.kind(c)
        if k is None:
            return None
        if k == "format":
            tm = text(self.val(ctx, args[0]))
            a = self.val(ctx, args[1]) if len(args) > 1 else None
            if tm is None:
                return None
            return [Outcome(ctx.aut, G("P:" + self.fill(ctx, tm, a)))]
        if k == "arg":
            p = self.path(ctx, args[0])
            return [Outcome(ctx.aut, G("A:" + p))]
        if k == "op":
            ids = [t for a in args for t in ctx.eng.tags(ctx.env, a) if t in NAMES or t.startswith(("P:", "T:"))]
            if not ids:
                return None
            g = G("P:{?}")
            n = RX_OP.search(c.path).group(0)
            sep = "/" if re.search(r"Path(Buf)?::(join|push)$", n) else "" if re.search(r"::push(_str)?$|::add(_assign)?$", n) else None
            if sep is not None and len(args) == 2:
                b = self.val(ctx, args[1])
                b = chr(b[1]) if b is not None and b[0] == "k" and n.endswith("::push") and isinstance(b[1], int) else self.path(ctx, args[1])
                g = G("P:" + self.path(ctx, args[0]) + sep + b) if not (sep and b.startswith("/")) else G("P:" + b)
            xs = self.val(ctx, args[0]) if re.search(r"\]>::(join|concat)$", n) else None
            if xs is not None and xs[0] == "s" and all(x is not None for x in xs[1]):
                sep = text(self.val(ctx, args[1])) if len(args) > 1 else ""
                if sep is not None:
                    return [Outcome(ctx.aut, G("P:" + sep.join(self.path(ctx, x) for x in xs[1])))]
            if args[0] is not None and args[0][0] == "r" and args[0][3]:
                return [Outcome(ctx.aut, g, wr=(args[0], g))]
            return [Outcome(ctx.aut, g)]
        if k == "next":
            e = None
            if "engine::core::space::Space" in str(c.selfty) or "engine::core::space::Space" in str(c.ga):
                e = G("sname")
            elif "EntityID" in str(c.selfty) + str(c.ga):
                return None
            return [Outcome(ctx.aut, V(0)), Outcome(ctx.aut, V(1, ("s", (e, None))))] if e else None
        if k == "fresh":
            return [Outcome(ctx.aut, G("fresh"))]
        if k == "opt":
            return self.option(ctx, c, args)
        self.sites.add((ctx.inst.body.path, c.path))
        if k == "create":
            return self.effect(ctx, "truncate", self.path(ctx, args[0]))
        if k == "create_new":
            return self.effect(ctx, "new", self.path(ctx, args[0]))
        if k == "open":
            return self.effect(ctx, "read", self.path(ctx, args[0]))
        if k in ("set_len", "read", "read_to_string"):
            return None
        if k == "fut":
            return [Outcome(ctx.aut, G("F:" + c.path.rsplit("::", 1)[-1] + ":" + self.path(ctx, args[0])))]
        if k == "poll":
            f = [x for x in ctx.eng.tags(ctx.env, args[0]) if x.startswith("F:")]
            op, p = f[0][2:].split(":", 1) if len(f) == 1 else (RX_FUT.search(c.path).group(1), "{?}")
            r = self.effect(ctx, op, p)
            return [Outcome(o.aut, V(0, o.ret)) for o in r] if r else None
        if k == "send":
            return self.send(ctx, args[1])
        r = self.effect(ctx, k, self.path(ctx, args[0]), self.path(ctx, args[1]) if k in ("rename", "copy", "hard_link", "soft_link") else None)
        return r

    def fill(self, ctx, tm, a):
        """the text a formatting template stands for; each placeholder takes the next argument"""
        xs = list(a[1]) if a is not None and a[0] == "s" else []
        out, i, n = "", 0, 0
        b = tm
        while i < len(b):
            ch = ord(b[i])
            if ch == 0 and i == len(b) - 1:
                break
            if ch >= 0x80:
                if ch != 0xc0:
                    return "{?}"        # not a plain placeholder
                v = xs[n] if n < len(xs) else None
                n += 1
                ts = [x for x in ctx.eng.tags(ctx.env, v) if x.startswith("A:")] if v is not None else []
                out += ts[0][2:] if len(ts) == 1 else "{?}"
                i += 1
            else:
                out += b[i + 1:i + 1 + ch]
                i += 1 + ch
        return out

    # ---- how files are opened
    def option(self, ctx, c, args):
        n = RX_OPT.search(c.path)
        n = n.group(2) or n.group(3) or n.group(4)
        if n in ("options", "new"):
            return [Outcome(ctx.aut, G("O"))]
        if n == "open":
            self.sites.add((ctx.inst.body.path, c.path))
            t = ctx.eng.tags(ctx.env, args[0])
            if "O" not in t:
                return self.effect(ctx, "opened-somehow", self.path(ctx, args[1]))
            if "O:create_new" in t:
                return self.effect(ctx, "new", self.path(ctx, args[1]))
            if "O:truncate" in t:
                return self.effect(ctx, "truncate", self.path(ctx, args[1]))
            if "O:create" in t:
                return self.effect(ctx, "create-or-open", self.path(ctx, args[1]))
            return self.effect(ctx, "open" if "O:write" in t or "O:append" in t else "read", self.path(ctx, args[1]))
        v = args[1] if len(args) > 1 else None
        on = v is None or v[0] != "k" or bool(v[1])
        t = {x for x in ctx.eng.tags(ctx.env, args[0]) if x[0] == "O"}
        t = t | {"O:" + n} if on else t - {"O:" + n}
        g = G(*t)
        if args[0] is not None and args[0][0] == "r":
            return [Outcome(ctx.aut, args[0], wr=(args[0], g))]
        return [Outcome(ctx.aut, g)]

    def note(self, ctx, what, p):
        self.seen.setdefault((what, p), ctx.inst.body.path)


def shape(p):
    """'space' or 'model' for the directory of one, ('file', ..) for a file in it, 'fixed' for a path without names"""
    names = re.findall(r"\{([^}]*)\}", p)
    if not names:
        return "fixed"
    if any(n not in NAMES for n in names):
        return None
    return frozenset(names)


class Statement(Files):
    """the handlers of statements; aut = (phase, txn, made, scheduled)

    phase: N(othing committed) / C / F(ailed); made: what was made on disk; scheduled: directories scheduled for deletion"""
    start = ("N", None, frozenset(), ())

    def on_stmt(self, ctx, st):
        o = self.made(st)
        if o is not None:
            self.see("object")
            if "fresh" not in ctx.eng.tags(ctx.env, ctx.eng.operand(ctx.env, o, ctx.inst)):
                ctx.report("id-not-fresh:" + st[2][1]["adt"].rsplit("::", 1)[-1], "an object is made under an id that is not a new one")
        return None

    def commit(self, ctx, t):
        ph, tx, made, sch = ctx.aut
        return [Outcome(("C", t, made, sch), V(0, None)), Outcome(("F", t, made, sch), V(1, None))]

    def effect(self, ctx, op, p, q=None):
        ph, tx, made, sch = ctx.aut
        if op == "read":
            return None
        if op == "create_dir_all":
            op = "create_dir"
        if op not in ("create_dir", "new"):
            ctx.report("statement-%s@%s" % (op, ctx.inst.body.path), {"truncate": "a statement opens a file so that what is in it is lost", "create-or-open": "a statement creates a file that may exist already", "open": "a statement opens a file that exists already"}.get(op, "a statement changes files itself (%s)" % op))
            return None
        self.see(op)
        self.note(ctx, op, p)
        if ph != "N":
            ctx.report("made-late:%s" % op, "a statement makes a file or directory after its change was committed")
        return [Outcome((ph, tx, made | {(op, p)}, sch), V(0, None)), Outcome((ph, tx, made | {("failed", op)}, sch), V(1, None))]

    def send(self, ctx, v):
        ph, tx, made, sch = ctx.aut
        w = self.val(ctx, v)
        g = self.val(ctx, w[1][1]) if w is not None and w[0] == "s" and len(w[1]) == 2 else None
        if g is None or g[0] != "v" or g[1] != 1:
            ctx.report("scheduled-what@%s" % ctx.inst.body.path, "a statement schedules a deletion other than that of a directory")
            return None
        p = self.path(ctx, g)
        self.see("scheduled")
        self.note(ctx, "scheduled", p)
        return [Outcome((ph, tx, made, sch + (p,)), V(0, None))]

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        ph, tx, made, sch = ctx.aut
        at = lambda op: {p for o, p in made if o == op}
        fail = at("failed")
        for o in ("Create", "Drop"):
            for k, names in (("Space", SELF), ("Model", set(NAMES))):
                if tx != o + k + "Txn":
                    continue
                lk = o.lower() + "-" + k.lower()
                self.see(lk + ph)
                own = [p for p in sch if shape(p) == names]
                other = [p for p in sch if shape(p) != names]
                if other:
                    ctx.report("deletes-other:" + lk, "%s %s schedules the deletion of %s, which is not the directory of that %s" % (o.upper(), k.upper(), other[0], k.lower()))
                if o == "Drop" or ph == "F":
                    want = 1 if (ph == "C") == (o == "Drop") else 0
                    if len(own) > want:
                        ctx.report("deletes-kept:" + lk if not want else "deletes-twice:" + lk, "the directory of the %s is scheduled for deletion %s" % (k.lower(), "although it was not dropped" if not want else "more than once"))
                    if len(own) < want and not other:
                        ctx.report("not-deleted:" + lk, "the directory of a %s that %s is never scheduled for deletion" % (k.lower(), "was dropped" if o == "Drop" else "could not be created"))
                elif own:
                    ctx.report("deletes-kept:" + lk, "the directory of a %s that was created is scheduled for deletion" % k.lower())
                if o == "Create":
                    if fail:
                        ctx.report("made-failed:" + lk, "%s is committed although its directory or file could not be made" % k)
                    ds = [p for p in at("create_dir") if shape(p) == names]
                    if len(ds) != 1:
                        ctx.report("no-dir:" + lk, "%s is committed without a directory of its own" % k)
                    if k == "Model":
                        fs = [p for p in at("new") if shape(p) == names]
                        if len(fs) != 1 or not ds or not fs[0].startswith(ds[0] + "/"):
                            ctx.report("no-file:" + lk, "a model is committed without a data file of its own in its directory")
                return None
        if tx is None and sch:
            ctx.report("deletes-without-commit", "a statement that commits nothing schedules the deletion of %s" % sch[0])
        elif sch:
            ctx.report("deletes-other:%s" % tx, "a statement that drops nothing schedules the deletion of %s" % sch[0])
        return None


class Startup(Files):
    """the process up to serving"""

    def commit(self, ctx, t):
        return None

    def v1(self, ctx):
        """within the code that reads the data of the v1 storage engine, and moves it away"""
        return any("(engine::storage::v1::" in x or "(<engine::storage::v1::" in x for x in map(str, ctx.stack + (ctx.where(),)))

    def effect(self, ctx, op, p, q=None):
        if op == "read":
            return None
        s = shape(p)
        self.note(ctx, "v1-" + op if self.v1(ctx) else op, p)
        self.see(op)
        two = [Outcome(ctx.aut, V(0, None)), Outcome(ctx.aut, V(1, None))]
        if op in ("open", "new"):
            if op == "open" and self.v1(ctx):
                return two
            if s != "fixed" and s != frozenset(NAMES):
                ctx.report("%s-other:%s" % (op, p), "at startup a data file is %s under a path that is not that of a model (%s)" % ("opened" if op == "open" else "created", p))
            return two
        if op in ("create_dir", "create_dir_all"):
            return two
        if op == "truncate" or op == "remove_file":
            if s != "fixed" or "/" in p or re.search(r"db", p):
                ctx.report("startup-%s:%s" % (op, p), "the server %s %s" % ("empties" if op == "truncate" else "deletes", p))
            return two
        if op in ("rename", "copy", "create-or-open", "remove_dir_all", "remove_dir", "write", "opened-somehow"):
            if op == "rename" and self.v1(ctx):
                return two
            ctx.report("startup-%s@%s" % (op, ctx.inst.body.path), "the server does `%s` on its files outside of the upgrade of v1 data" % op)
            return two
        return None

    def send(self, ctx, v):
        ctx.report("startup-schedules", "a deletion is scheduled at startup")
        return None


class Worker(Files):
    """the service that deletes what was scheduled; aut = the task in hand: None / ('got'|'failed'|'done', 'file'|'dir')"""
    field_tags = dict(Files.field_tags)

    def __init__(self, prog):
        super().__init__(prog)

    def kind(self, c):
        p = c.path or ""
        if c.inst is None and re.search(r"(^|::)poll_fn$", p):
            return "poll_fn"
        if c.inst is None and re.search(r"PollFn<F> as std::future::Future>::poll$", p):
            return "select"
        if c.inst is None and re.search(r"mpsc::\w*Receiver::<T>::(try_recv|blocking_recv)$", p) and TASK in str(c.selfty):
            return "try"
        if c.inst is None and re.search(r"mpsc::\w*Receiver::<T>::recv::\{closure#\d+\}$", p) and TASK in str(c.selfty) + str(c.ga) + str(c.t0):
            return "recv"
        return super().kind(c)

    def commit(self, ctx, t):
        return None

    def tasks(self):
        ad = self.prog.adts.get(TASK)
        for i, v in enumerate(ad["variants"]):
            k = {"DeleteFile": "file", "DeleteDirAll": "dir"}.get(v["n"])
            yield k, ("s", (None, V(i, G("T:%s" % k))))

    def over(self, ctx, how):
        a = ctx.aut
        if a and a[0] == "got":
            ctx.report("not-attempted:%s" % a[1], "a scheduled deletion is taken out of the queue and %s without it being attempted" % how)
        if a and a[0] == "failed":
            ctx.report("not-retried:%s" % a[1], "a deletion that failed is not queued again")

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k == "poll_fn":
            return [Outcome(ctx.aut, None)]
        if k in ("select", "try", "recv"):
            self.over(ctx, "the next one waited for")
            if k == "try":
                self.see("receive")
                return [Outcome(("got", n), V(0, t)) for n, t in self.tasks()] + [Outcome(None, V(1, None))]
            if k == "recv":
                self.see("receive")
                return [Outcome(("got", n), V(0, V(1, t))) for n, t in self.tasks()] + [Outcome(None, V(0, V(0)))]
            b = ctx.inst.body.blocks[ctx.bb]["t"]
            ty = self.prog.types[self.prog.lty(ctx.inst, b[3][0])]
            inner = self.prog.types[ty["a"][0]] if ty.get("a") else None
            if inner is None or "select_util::Out" not in inner["s"]:
                return None
            self.see("select")
            out = []
            for i, a in enumerate(inner["a"]):
                s = self.prog.tys(a)
                if s.startswith("std::option::Option") and TASK in s:
                    self.see("receive")
                    out.append(Outcome(None, V(0, V(i, V(0)))))
                    for n, t in self.tasks():
                        out.append(Outcome(("got", n), V(0, V(i, V(1, t)))))
                else:
                    out.append(Outcome(None, V(0, V(i, None))))
            return out
        return super().on_call(ctx, c, args)

    def effect(self, ctx, op, p, q=None):
        a = ctx.aut
        if op == "read":
            return None
        want = {"{T:file}": ("file", ("remove_file",)), "{T:dir}": ("dir", ("remove_dir_all",))}.get(p)
        self.see(op)
        if want is None or op not in want[1]:
            ctx.report("deletes-unscheduled:%s" % op, "the background service does `%s` on something other than what was scheduled (%s)" % (op, p))
            return [Outcome(a, V(0, None)), Outcome(a, V(1, None))]
        if not a or a[1] != want[0]:
            ctx.report("deletes-again:%s" % op, "a deletion is carried out that is not the one in hand")
        return [Outcome(("done", want[0]), V(0, None)), Outcome(("failed", want[0]), V(1, None))]

    def send(self, ctx, v):
        a = ctx.aut
        w = self.val(ctx, v)
        g = self.val(ctx, w[1][1]) if w is not None and w[0] == "s" and len(w[1]) == 2 else None
        self.see("requeue")
        vn = None
        if g is not None and g[0] == "v":
            vn = {"DeleteFile": "file", "DeleteDirAll": "dir"}.get(self.prog.adts[TASK]["variants"][g[1]]["n"])
        if not a or a[0] not in ("failed", "got") or vn != a[1] or self.path(ctx, g) != "{T:%s}" % a[1]:
            ctx.report("queues-other", "the background service queues a deletion that is not one that failed")
            return [Outcome(a, V(0, None))]
        return [Outcome(("done", a[1]), V(0, None))]

    def on_return(self, ctx, ret):
        if not ctx.stack:
            self.over(ctx, "the service ends")
        return None
