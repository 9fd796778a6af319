"""What each property's check runs.  Each plan is a function of a vlib.Check."""
import json, os, random
PLANS = {}


def plan(pid):
    def deco(f):
        PLANS[pid] = f
        return f
    return deco


@plan("C01")
def c01(c):
    p = c.generate("MC_Msg", c.n("MC_Msg_gen.cfg", "MC_Msg_gen_big.cfg"), min_cases=1000)
    c.replay_generated("msg-gen", p)
    c.record_and_judge("msg-build", "J_Msg", c.n(20000, 200000), min_lines=1000)


@plan("C03")
def c03(c):
    c.model_check("MC_Lines", c.n("MC_Lines.cfg", "MC_Lines_big.cfg"), min_states=1000)
    p = c.generate("MC_Lines", c.n("MC_Lines_gen.cfg", "MC_Lines_gen_big.cfg"), min_cases=1000)
    c.replay_judged("msg-parse", p, "J_Msg")
    c.record_and_judge("msg-parse", "J_Msg", c.n(30000, 300000), min_lines=1000)


@plan("C02")
def c02(c):
    c.model_check("MC_Framing", c.n("MC_Framing.cfg", "MC_Framing_big.cfg"), min_states=1000)
    p = c.generate("MC_Framing", "MC_Framing_gen.cfg", min_cases=1000)
    c.replay_generated("framing", p)
    c.record_and_judge("framing", "J_Framing", c.n(4000, 40000), min_lines=100)


@plan("C04")
def c04(c):
    c.model_check("MC_Queue", c.n("MC_QueueRate.cfg", "MC_QueueRate_big.cfg"), min_states=1000)
    p = c.generate("MC_Queue", "MC_QueueRate_gen.cfg", args=("-simulate", f"num={c.n(300, 6000)}", "-depth", "18"), min_cases=500)
    c.replay_generated("queue-rate", p)
    c.record_and_judge("queue-rate", "J_Queue", c.n(8000, 80000), min_lines=1000)


@plan("C05")
def c05(c):
    c.model_check("MC_Queue", c.n("MC_QueueEdit.cfg", "MC_QueueEdit_big.cfg"), min_states=1000)
    p = c.generate("MC_Queue", "MC_QueueEdit_gen.cfg", args=("-simulate", f"num={c.n(200, 4000)}", "-depth", "16"), min_cases=500)
    c.replay_generated("queue-edit", p)
    c.record_and_judge("queue-edit", "J_Queue", c.n(6000, 60000), min_lines=1000)
    c.record_and_judge("queue-rate", "J_Queue", c.n(6000, 60000), min_lines=1000)   # resetting forgives the debt


def sim(c, quick, thorough, depth):
    return ("-simulate", f"num={c.n(quick, thorough)}", "-depth", str(depth), "-seed", str(c.seed))


def client_handlers(c, lines):
    c.model_check("MC_Client", c.n("MC_ClientHandlers.cfg", "MC_ClientHandlers_big.cfg"), min_states=1000, timeout=850)
    p = c.generate("MC_Client", "MC_ClientHandlers_gen.cfg", args=sim(c, 60, 1500, 12), min_cases=500, name="handlers")
    c.replay_judged("client", p, "J_Client")
    c.record_and_judge("client", "J_Client", lines, min_lines=1000)


def senders(c):
    """Every history of a handler sending over every kind of channel."""
    c.model_check("MC_Send", c.n("MC_Send.cfg", "MC_Send_big.cfg"), min_states=1000)
    p = c.generate("MC_Send", "MC_Send_gen.cfg", min_cases=1000)
    c.replay_judged("auto", p, "J_Auto")


@plan("C06")
def c06(c):
    client_handlers(c, c.n(6000, 80000))
    senders(c)


@plan("C07")
def c07(c):
    client_handlers(c, c.n(6000, 80000))


@plan("C15")
def c15(c):
    c.model_check("MC_Client", c.n("MC_ClientTime.cfg", "MC_ClientTime_big.cfg"), min_states=1000, timeout=850)
    p = c.generate("MC_Client", "MC_ClientTime_gen.cfg", args=sim(c, 80, 1500, 12), min_cases=500, name="time")
    c.replay_judged("client-time", p, "J_Client")
    c.record_and_judge("client-time", "J_Client", c.n(6000, 80000), min_lines=1000)


@plan("C16")
def c16(c):
    for kind in ("cap", "tags"):
        c.model_check("MC_Map", c.n(f"MC_Map_{kind}.cfg", f"MC_Map_{kind}_big.cfg"), min_states=1000, timeout=850)
        p = c.generate("MC_Map", f"MC_Map_{kind}_gen.cfg", args=sim(c, 30, 600, 14), min_cases=500, name=kind)
        c.replay_judged("map", p, "J_Map")
    c.record_and_judge("map", "J_Map", c.n(8000, 100000), min_lines=1000)


def registration(c, lines, model=True):
    """Whole registrations: exhaustive exploration of the specification, generated and random transcripts."""
    if model:
        c.model_check("MC_Register", c.n("MC_Register_any.cfg", "MC_Register_any_big.cfg"), min_states=1000, timeout=850)
        c.model_check("MC_Register", c.n("MC_Register_session.cfg", "MC_Register_session_big.cfg"), min_states=1000, timeout=3000)
    p = c.generate("MC_Register", "MC_Register_any_gen.cfg", args=sim(c, 12, 300, 14), min_cases=500, name="any")
    c.replay_judged("reg", p, "J_Reg")
    p = c.generate("MC_Register", "MC_Register_session_gen.cfg", args=sim(c, 120, 2500, 40), min_cases=500, name="session")
    c.replay_judged("reg", p, "J_Reg")
    c.record_and_judge("reg", "J_Reg", lines, min_lines=1000)


@plan("C08")
def c08(c):
    c.record_and_judge("caps", "J_Reg", c.n(5000, 60000), min_lines=1000)
    registration(c, c.n(6000, 80000))


@plan("C09")
def c09(c):
    registration(c, c.n(8000, 80000))


@plan("C10")
def c10(c):
    c.record_and_judge("sasl", "J_Reg", c.n(6000, 60000), min_lines=1000)
    registration(c, c.n(4000, 60000))


@plan("C11")
def c11(c):
    c.record_and_judge("nick", "J_Reg", c.n(6000, 60000), min_lines=1000)
    registration(c, c.n(4000, 60000))


def background(c, lines):
    c.model_check("MC_Auto", c.n("MC_Auto.cfg", "MC_Auto_big.cfg"), min_states=1000, timeout=850)
    p = c.generate("MC_Auto", "MC_Auto_gen.cfg", args=sim(c, 30, 600, 12), min_cases=500, name="auto")
    c.replay_judged("auto", p, "J_Auto")
    c.record_and_judge("auto", "J_Auto", lines, min_lines=1000)


@plan("C12")
def c12(c):
    background(c, c.n(10000, 100000))
    senders(c)
    c.record_and_judge("reg", "J_Reg", c.n(4000, 40000), min_lines=1000)


@plan("C19")
def c19(c):
    background(c, c.n(10000, 100000))
    registration(c, c.n(4000, 40000), model=False)


def scenario_arg(s):
    ops = lambda l: ",".join(o[0] if o[1] == 0 else f"{o[0]}:{o[1]}" for o in l)
    return f"{s['kind']};{ops(s['rx'])};" + "|".join(ops(t) for t in s["tx"])


def channel(c, kinds):
    """The oneshot channel and the parker: abstract and algorithmic models, all small programs on the real code under
    controlled schedules, and under Miri."""
    c.model_check("MC_Chan", c.n("MC_Chan.cfg", "MC_Chan_big.cfg"), min_states=1000, timeout=850)
    c.model_check("ChanImpl", c.n("ChanImpl.cfg", "ChanImpl_big.cfg"), min_states=1000, timeout=3000)
    p = c.generate("MC_Chan", c.n("MC_Chan_gen.cfg", "MC_Chan_gen_big.cfg"), min_cases=500, name="programs")
    scns = [s for s in (json.loads(l) for l in open(p)) if s["kind"] in kinds]
    rnd = random.Random(c.seed)
    one = [s for s in scns if len(s["tx"]) == 1]
    two = [s for s in scns if len(s["tx"]) == 2]
    three = [s for s in scns if len(s["tx"]) == 3]
    if not c.thorough:
        rnd.shuffle(two)
        aw = [s for s in two if any(o[0] == "await" for p in s["tx"] for o in p)]
        two = aw[:50] + [s for s in two if s not in aw][:120]
    rnd.shuffle(three)
    for name, group, bound, runs in (("one", one, 3, c.n(3000, 60000)), ("two", two, c.n(2, 3), c.n(700, 20000)),
                                     ("three", three[:600], 2, 2000)):
        if not group:
            continue
        f = os.path.join(c.work, name + ".scn")
        with open(f, "w") as g:
            g.writelines(json.dumps(s) + "\n" for s in group)
        out = c.explore(f, bound, runs, c.n(20, 300), name, timeout=3000 if c.thorough else 400)
        if out is None:
            break
        c.judge(out, "J_Chan", timeout=3000)
    else:
        p = c.generate("ChanImpl", "ChanImpl_gen.cfg", args=sim(c, 100, 3000, 60), min_cases=100, name="algorithm")
        out = c.explore(p, 0, 1, 0, "algorithm.out")
        c.judge(out, "J_Chan", timeout=3000)
    picks = rnd.sample(one, min(len(one), c.n(3, 20))) + rnd.sample(two, min(len(two), c.n(5, 40)))
    out = c.miri(sorted({scenario_arg(s) for s in picks}), (0, c.n(16, 64)), "miri", timeout=3000 if c.thorough else 600)
    c.judge(out, "J_Chan", timeout=3000)


@plan("C13")
def c13(c):
    channel(c, ("raw", "park", "dyn"))


@plan("C14")
def c14(c):
    channel(c, ("park", "dyn", "unit"))


c13.uses_harness = c14.uses_harness = False


@plan("C17")
def c17(c):
    c.model_check("MC_Str", c.n("MC_Str.cfg", "MC_Str_big.cfg"), min_states=1000, timeout=3000)
    p = c.generate("MC_Str", "MC_Str_gen.cfg", args=sim(c, 6, 60, 10), min_cases=500, name="strings")
    c.replay_judged("str", p, "J_Str")
    c.record_and_judge("sec", "J_Str", c.n(6000, 80000), min_lines=1000)
    c.record_and_judge("sbuf", "J_Str", c.n(6000, 80000), min_lines=1000)
    c.record_and_judge("str", "J_Str", c.n(4000, 50000), min_lines=1000)


@plan("C18")
def c18(c):
    c.model_check("MC_Split", c.n("MC_Split.cfg", "MC_Split_big.cfg"), min_states=1000, timeout=3000)
    c.model_check("MC_Str", c.n("MC_Str.cfg", "MC_Str_big.cfg"), min_states=1000, timeout=3000)
    p = c.generate("MC_Split", "MC_Split_gen.cfg", args=sim(c, 24, 400, 12), min_cases=500, name="splits")
    c.replay_judged("str", p, "J_Str")
    p = c.generate("MC_Str", "MC_Str_gen.cfg", args=sim(c, 5, 60, 10), min_cases=500, name="strings")
    c.replay_judged("str", p, "J_Str")
    c.record_and_judge("str", "J_Str", c.n(12000, 150000), min_lines=1000)


@plan("C20")
def c20(c):
    c.model_check("MC_Modes", "MC_Modes.cfg", min_states=1000)
    for w in ("chan", "prefix"):
        c.model_check("MC_Modes", c.n(f"MC_Modes_{w}.cfg", f"MC_Modes_{w}_big.cfg"), min_states=1000, timeout=3000)
        p = c.generate("MC_Modes", c.n(f"MC_Modes_{w}_gen.cfg", f"MC_Modes_{w}_gen_big.cfg"), min_cases=1000, name=w, timeout=3000)
        c.replay_judged("modes", p, "J_Modes", timeout=3000)
    p = c.generate("MC_Modes", "MC_Modes_gen.cfg", args=sim(c, 40, 600, 12), min_cases=500, name="histories")
    c.replay_judged("modes", p, "J_Modes")
    c.record_and_judge("modes", "J_Modes", c.n(5000, 120000), min_lines=1000, timeout=3000)


def share_scenarios(path, n, rnd):
    """Programs of the specification, with slots and details chosen for each step, as arguments of the driver."""
    texts = [b"Hello, world", "na\u00efve \u2603".encode(), b"\xff\xfeab", b"x"]
    gen = [json.loads(l) for l in open(path)]
    rnd.shuffle(gen)
    gen.sort(key=lambda g: -sum(1 for p in g["progs"] if p))
    out = []
    for g in gen[:n]:
        text = rnd.choice(texts)
        progs = []
        for p in g["progs"]:
            live, slots, ops = [0], 1, []
            for k in p:
                i, m = (rnd.choice(live) if live else 0), 0
                if k == "r":
                    k = rnd.choice("rrruol")
                elif k == "R":
                    k = rnd.choice("RRUUL")
                elif k == "c" and rnd.random() < 0.4:
                    k, m = "s", rnd.randrange(len(text) + 2)
                if k in "csC":
                    live.append(slots)
                    slots += 1
                if k in "dv":
                    live.remove(i)
                ops.append(f"{k}:{i}:{m}")
            progs.append(",".join(ops))
        out.append(f"str;{text.hex()};{rnd.choice('ns')};{g['mode']};{rnd.choice('dv')};" + "|".join(progs))
    return out


@plan("C21")
def c21(c):
    rnd = random.Random(c.seed)
    # two threads that only read and let go: the smallest programs that need the orderings
    small = ["str;48656c6c6f;s;own;d;r:0:0|r:0:0", "str;48656c6c6f;n;own;d;r:0:0|v:0:0", "str;48656c6c6f;s;own;d;r:0:0|v:0:0|r:0:0,v:0:0"]
    # one string asked by two threads at once, for each verdict
    asked = [f"str;{t.hex()};{k};ref;d;{p}" for t, k in ((b"ab\xff", "n"), (b"\xc3\xa9\xe2\x98", "s"), ("n\u00e9".encode(), "n"))
             for p in ("U:0:0|L:0:0,U:0:0", "U:0:0,L:0:0|U:0:0,L:0:0")]
    c.model_check("MC_Verdict", c.n("MC_Verdict.cfg", "MC_Verdict_big.cfg"), min_states=100)
    for mode in ("own", "ref"):
        c.model_check("MC_Share", c.n(f"MC_Share_{mode}.cfg", f"MC_Share_{mode}_big.cfg"), min_states=1000, timeout=3000)
        p = c.generate("MC_Share", f"MC_Share_{mode}_gen.cfg", args=sim(c, 100, 1000, 60), min_cases=50, name=mode)
        s = share_scenarios(p, c.n(8, 60), rnd) + (small if mode == "own" else asked)
        out = c.miri(s, (c.seed * 1000, c.seed * 1000 + c.n(20, 200)), "share-" + mode, timeout=3000 if c.thorough else 700, flags="-Zmiri-disable-stacked-borrows")
        c.judge(out, "J_Share", min_lines=100)


c21.uses_harness = False


@plan("C22")
def c22(c):
    for w in ("doc", "opts"):
        c.model_check("MC_Serde", c.n(f"MC_Serde_{w}.cfg", f"MC_Serde_{w}_big.cfg"), min_states=1000, timeout=3000)
        p = c.generate("MC_Serde", c.n(f"MC_Serde_{w}_gen.cfg", f"MC_Serde_{w}_gen_big.cfg"), min_cases=1000, name=w, timeout=3000)
        c.replay_judged("serde", p, "J_Serde", timeout=3000)
    c.record_and_judge("serde", "J_Serde", c.n(12000, 200000), min_lines=1000, timeout=3000)


@plan("C23")
def c23(c):
    for w in ("view", "ctcp"):
        c.model_check("MC_Views", c.n(f"MC_Views_{w}.cfg", f"MC_Views_{w}_big.cfg"), min_states=1000, timeout=3000)
        p = c.generate("MC_Views", c.n(f"MC_Views_{w}_gen.cfg", f"MC_Views_{w}_gen_big.cfg"), min_cases=1000, name=w, timeout=3000)
        c.replay_judged("views", p, "J_Views", timeout=3000)
    c.record_and_judge("views", "J_Views", c.n(8000, 150000), min_lines=1000, timeout=3000)


@plan("C24")
def c24(c):
    binpath = c.build("tls", "vtls")
    c.model_check("MC_Tls", c.n("MC_Tls.cfg", "MC_Tls_big.cfg"), min_states=1000)
    p = c.generate("MC_Tls", c.n("MC_Tls_gen.cfg", "MC_Tls_gen_big.cfg"), min_cases=1000, name="tls")
    rounds = c.n(3, 8)
    for i in range(rounds):
        out = os.path.join(c.work, f"tls.{i}.ndjson")
        c.harness("connections", out, inp=p, binpath=binpath)
        c.judge(out, "J_Tls")


c24.uses_harness = False
