"""What each check runs: models (mc), driver suites and the trace
specifications that judge them. need: classes of events that a run must have
exercised."""


def ber(prop, need):
    return dict(
        stateless=True,
        mc=[dict(module="MCBER")],
        suites=[dict(suite=prop, trace="TraceBER")],
        need=need,
    )


def glow(prop, need):
    return dict(
        stateless=True,
        mc=[dict(module="MCGlow")],
        suites=[dict(suite=prop, trace="TraceGlow")],
        need=need,
    )


def s101(prop, need):
    return dict(
        mc=[dict(module="MCS101")],
        suites=[dict(suite=prop, trace="TraceS101")],
        need=need,
    )


def tree(prop, need, more=()):
    return dict(
        mc=[dict(module="MCTree", cases_for=prop)],
        suites=[dict(suite=prop, trace="TraceTree")] + list(more),
        need=need,
    )


def support(prop, need):
    return dict(
        mc=[dict(module="MCSupport")],
        suites=[dict(suite=prop, trace="TraceSupport")],
        need=need,
    )


def client(prop, need, parts, more=()):
    return dict(
        mc=[dict(module="MCClient", cases_for=prop, workers=1), dict(module="MCClient", cfg="MCClientLive", cases_for="-", workers=4)],
        suites=[dict(suite=prop, trace="TraceClient", parts=parts)] + list(more),
        need=need,
    )


PLAN = {
    "C01": ber("C01", ["write int64", "read int64 value", "read bool value", "read int tag", "read int64 truncated"]),
    "C02": ber("C02", ["write real", "read real value"]),
    "C03": ber("C03", ["write str", "write buf", "read str value", "read bits value", "write long str", "read long str"]),
    "C05": dict(
        mc=[dict(module="MCReader")],
        suites=[dict(suite="C05", trace="TraceReader")],
        need=["start ok", "check ok", "end ok", "end err", "str ok", "oid ok", "int64 ok", "part ok", "peek err", "real ok", "bits ok"],
    ),
    "C04": ber("C04", ["write oid", "read oid value", "read oid malformed", "read oid tag"]),
    "C06": glow("C06", ["dec msg", "dec el", "dec conn", "dec label", "dec sig", "dec tuple", "dec inv", "dec node", "dec param", "dec matrix", "dec func", "dec cmd"]),
    "C07": dict(
        stateless=True,
        mc=[dict(module="MCGlow", cases_for="C07")],
        suites=[dict(suite="C07", trace="TraceGlow"), dict(suite="C07v", trace="TraceBER")],
        need=["cut msg", "cut el", "cut conn", "cut label", "cut sig", "cut tuple", "cut inv", "cut param", "cut matrix", "cut func",
              "read str truncated", "read real truncated", "read int truncated", "read oid truncated", "read bool truncated"],
    ),
    "C08": dict(
        mc=[dict(module="MCGlow", cases_for="C08")],
        suites=[dict(suite="C08", trace="TraceGlow"), dict(suite="C08m", trace="TraceGlow"), dict(suite="C08r", trace="TraceReader")],
        need=["free", "odd", "hostile frames", "hostile el", "hostile msg", "hostile str", "hostile inv", "hostile seq", "merged", "merged refused", "start err", "start ok"],
    ),
    "C09": glow("C09", ["enc msg", "enc el", "dec msg", "dec el"]),
    "C10": glow("C10", ["enc msg", "enc el", "dec msg", "dec el", "dec param", "flag", "flags", "enc label"]),
    "C11": glow("C11", ["enc msg", "enc el", "enc conn", "enc label", "enc sig", "dec msg", "dec matrix", "dec conn", "refused conn", "set type", "set mode", "set op", "set disp", "no matrix"]),
    "C12": glow("C12", ["enc msg", "enc el", "enc inv", "enc tuple", "dec func", "dec inv", "refused inv", "dec tuple"]),
    "C19": s101("C19", ["enc single", "enc packets", "keep-alive", "crc", "valid"]),
    "C20": s101("C20", ["feed msg", "feed ka", "feed", "all received"]),
    "C21": s101("C21", ["feed msg", "feed err", "feed ka"]),
    "C22": s101("C22", ["feed msg", "feed err", "feed ka"]),
    "C14": tree("C14", ["msg add", "msg update", "msg update and add", "msg refused", "msg nothing new", "msg ends early", "enc"]),
    "C15": tree("C15", ["msg add", "msg update", "found", "not found", "nowhere"]),
    "C16": tree("C16", ["adopt", "orphan", "paths"]),
    "C17": tree("C17", ["msg add", "msg update", "msg update and add", "msg refused", "msg ends early", "listen", "unlisten", "together", "has", "has not"],
                [dict(suite="C17r", trace="TraceTree", race=True)]),
    "C18": tree("C18", ["getdir root", "getdir qualified", "getdir 1", "getdir 2", "getdir 3", "enc"]),
    "C13": dict(mc=[dict(module="MCContent")], suites=[dict(suite="C13", trace="TraceContent")],
                need=["new node", "set node", "set param", "set matrix", "set func", "set cmd", "set cp", "copy", "copy refused", "ask", "ask refused"]),
    "C23": client("C23", ["get", "get before", "refused", "fill", "connect", "reconnect", "disconnect", "provider closes", "together", "together before"], 8,
                  [dict(suite="C23t", trace="TraceClient", race=True, parts=4)]),
    "C24": client("C24", ["keep-alives", "sync", "msg", "answer", "get before", "reconnect"], 8),
    "C25": client("C25", ["settled timeout", "settled", "answer", "get", "unlisten", "disconnect"], 24),
    "C26": dict(mc=[dict(module="MCWalk", cases_for="C26")],
                suites=[dict(suite="C26", trace="TraceClient", parts=24)],
                need=["walk", "walk large", "walk unanswered", "walk cut", "walk refused", "walks together"]),
    "C27": client("C27", ["connect", "reconnect", "connect refused", "disconnect", "disconnect refused", "provider closes", "isconn", "answer", "again", "rivals", "rivals to connect"], 8,
                  [dict(suite="C27r", trace="TraceClient", race=True, parts=4), dict(suite="C27c", trace="TraceClient", race=True, parts=2)]),
    "C31": dict(mc=[dict(module="MCStream")],
                suites=[dict(suite="C31", trace="TraceClient", parts=8)],
                need=["stream", "stream of messages", "stream without message", "stream with noise", "connect", "reconnect", "get"]),
    "C34": dict(mc=[dict(module="MCEdit", cases_for="C34", workers=1)],
                suites=[dict(suite="C34", trace="TraceTree")],
                need=["edit create", "edit assign", "edit change", "edit grow", "edit grow again", "msg add", "msg update", "enc", "found", "has"]),
    "C35": dict(mc=[dict(module="MCWriter", cases_for="C35", workers=1)],
                suites=[dict(suite="C35", trace="TraceWriter")],
                need=["start", "end", "value int", "value str", "value buf", "value oid", "value real", "value raw", "take all", "take some", "take early"]),
    "C33": dict(mc=[dict(module="MCPair", cases_for="C33s", workers=1)],
                suites=[dict(suite="C33s", trace="TraceS101"), dict(suite="C33t", trace="TraceTree"),
                        dict(suite="C33r", trace="TraceReader"), dict(suite="C33b", trace="TraceBER"),
                        dict(suite="C33g", trace="TraceGlow", race=True), dict(suite="C33p", trace="TraceTree", race=True), dict(suite="C33f", trace="TraceS101", race=True),
                        dict(suite="C33c", trace="TraceClient", race=True, parts=4)],
                need=["feed msg", "feed err", "all received", "msg update and add", "start ok", "end ok", "read oid value", "write real",
                      "enc msg", "dec msg", "get", "answer", "reconnect", "keep-alives"]),
    "C32": dict(mc=[dict(module="MCShow", workers=1)],
                suites=[dict(suite="C32", trace="TraceShow")],
                need=["show nothing", "show flat", "show deep", "path", "flags", "type", "value unset"]
                + ["value " + t for t in ("str", "int", "bool", "buf", "real", "oid")]),
    "C28": support("C28", ["levels", "level", "logger console", "logger null", "one of many"]
                   + [a + " " + w for a in ("prints", "silent") for w in ("error", "warn", "info", "debug", "debugln")]),
    "C29": support("C29", ["make", "wrap", "wrap none", "pass", "pass none"]),
    "C30": support("C30", ["push", "pop", "pop none"]),
}
