"""What each check runs.  See check.py."""
CHECKS = {}


def routing(design, gen=None):
    d = dict(design=design, driver="routing", trace=dict(module="RoutingTrace", cfg="RoutingTrace.cfg"),
             assumptions=["requests are served through ServeHTTP with an httptest recorder",
                          "verb suffixes registered at one position do not overlap"])
    if gen:
        d["gen"] = gen
    return d


_MC = dict(module="RoutingMC", cfg="RoutingMC.cfg", thorough_cfg="RoutingMC_t.cfg")
_MM = dict(module="RoutingMC", cfg="RoutingMC_M.cfg")
_G2 = dict(module="RoutingGen", cfg="RoutingGen2.cfg")
_G4 = dict(module="RoutingGen", cfg="RoutingGen4.cfg", simulate=(150, 3000), depth=6)
CHECKS["C01"] = routing([_MC], [_G2, _G4])
CHECKS["C02"] = routing([_MC, _MM], [_G2])
CHECKS["C03"] = routing([_MM])
CHECKS["C04"] = routing([_MM])


def pipeline(*gens):
    return dict(gen=[dict(module="PipelineMC", cfg="PipelineMC_%s.cfg" % g, thorough_cfg="PipelineMC_%s_t.cfg" % g,
                          cap=(1200, 20000)) for g in gens],
                driver="pipeline", trace=dict(module="PipelineTrace", cfg="PipelineTrace.cfg"), nomut={"sz", "closed"},
                assumptions=["before-write hooks only set headers and status",
                             "the connection behaves like net/http's response writer"])


CHECKS["C05"] = pipeline("ctl")
CHECKS["C07"] = pipeline("out")
CHECKS["C08"] = pipeline("rw")
CHECKS["C09"] = pipeline("pan")
CHECKS["C25"] = pipeline("gz")


def convert(gen=True):
    d = dict(driver="convert", trace=dict(module="ConvertTrace", cfg="ConvertTrace.cfg"), chunk=4000,
             assumptions=["float texts carry no more digits than the type keeps", "the local time zone is UTC"])
    if gen:
        d["gen"] = [dict(module="ConvertMC", cfg="ConvertMC.cfg", thorough_cfg="ConvertMC_t.cfg", cap=(500, 20000))]
    return d


CHECKS["C06"] = convert()
CHECKS["C17"] = convert()
CHECKS["C18"] = convert(False)
CHECKS["C19"] = convert()

CHECKS["C16"] = dict(driver="config", trace=dict(module="ConfigTrace", cfg="ConfigTrace.cfg"),
                     gen=[dict(module="ConfigMC", cfg="ConfigMC.cfg", thorough_cfg="ConfigMC_t.cfg", cap=(1500, 30000))],
                     assumptions=["the listed directory is not the executable's unless it is also the working directory"])



def inj():
    return dict(driver="inject", trace=dict(module="InjectTrace", cfg="InjectTrace.cfg"),
                gen=[dict(module="InjectMC", cfg="InjectMC.cfg", thorough_cfg="InjectMC_t.cfg", cap=(2000, 60000)),
                     dict(module="InjectMC", cfg="InjectMC_s.cfg", simulate=(150, 3000), depth=13, cap=(900, 30000))],
                assumptions=["providers ask only for what they declare", "no provider returns nil"])


for _p in ("C10", "C11", "C12"):
    CHECKS[_p] = inj()

for _p in ("C14", "C15"):
    CHECKS[_p] = dict(driver="worker", gen=[dict(module="WorkerMC", cfg="WorkerMC.cfg", thorough_cfg="WorkerMC_t.cfg")], build="tools/build_sched.py",
                      trace=dict(module="WorkerTrace", cfg="WorkerTrace.cfg", accept=True),
                      assumptions=["tasks are of the two supported types and return", "tasks do not wait for their own pool",
                                   "fewer tasks submit further tasks than the pool has slots"])

CHECKS["C13"] = dict(driver="isolation", build="tools/build_sched.py",
                     gen=[dict(module="IsolationMC", cfg="IsolationMC.cfg", thorough_cfg="IsolationMC_t.cfg", cap=(500, 12000))],
                     trace=dict(module="IsolationTrace", cfg="IsolationTrace.cfg"),
                     assumptions=["handlers keep no state of their own across requests"])

CHECKS["C26"] = dict(driver="reqlog", build="tools/build_sched.py",
                     gen=[dict(module="ReqLogMC", cfg="ReqLogMC.cfg", thorough_cfg="ReqLogMC_t.cfg", cap=(600, 12000))],
                     trace=dict(module="ReqLogTrace", cfg="ReqLogTrace.cfg"),
                     assumptions=["request ids sent by clients contain no brackets"])

CHECKS["C23"] = dict(driver="cache", build="tools/build_sched.py",
                     gen=[dict(module="CacheMC", cfg="CacheMC.cfg", thorough_cfg="CacheMC_t.cfg", cap=(500, 12000)),
                          dict(module="CacheMC", cfg="CacheMC_s.cfg", simulate=(60, 1500), depth=9, cap=(300, 10000))],
                     trace=dict(module="CacheTrace", cfg="CacheTrace.cfg"),
                     assumptions=["the back ends are protocol-level stand-ins on loopback sockets sharing a virtual clock",
                                  "keys are acceptable to memcached; numbers stay non-negative and below 10^18",
                                  "entries are not looked at within two seconds of their deadline"])

CHECKS["C20"] = dict(driver="session", build="tools/build_sched.py",
                     design=[dict(module="TokenMC", cfg="TokenMC.cfg", thorough_cfg="TokenMC_t.cfg")],
                     trace=dict(module="TokenTrace", cfg="TokenTrace.cfg"),
                     assumptions=["times lie between 1970 and 2262", "HMAC-SHA1 cannot be forged; keys are distinct as HMAC keys"])
CHECKS["C22"] = dict(driver="session", build="tools/build_sched.py",
                     gen=[dict(module="RememberMC", cfg="RememberMC.cfg", thorough_cfg="RememberMC_t.cfg", cap=(600, 12000))],
                     trace=dict(module="TokenTrace", cfg="TokenTrace.cfg"),
                     assumptions=["no secret key followed by a salt is another secret key followed by a salt",
                                  "nothing is looked at within two seconds of its deadline"])

CHECKS["C21"] = dict(driver="session", build="tools/build_sched.py",
                     gen=[dict(module="SessionMC", cfg="SessionMC.cfg", thorough_cfg="SessionMC_t.cfg", cap=(400, 12000)),
                          dict(module="SessionMC", cfg="SessionMC_s.cfg", simulate=(60, 1500), depth=11, cap=(300, 8000))],
                     trace=dict(module="SessionTrace", cfg="SessionTrace.cfg"),
                     assumptions=["the back ends are protocol-level stand-ins on loopback sockets sharing a virtual clock",
                                  "nothing is looked at within two seconds of its deadline", "the session lifetime is positive"])

CHECKS["C30"] = dict(driver="collect", build="tools/build_sched.py",
                     design=[dict(module="CollectMC", cfg="CollectMC.cfg", thorough_cfg="CollectMC_t.cfg")],
                     trace=dict(module="CollectTrace", cfg="CollectTrace.cfg"),
                     assumptions=["a collection takes no time"])

CHECKS["C24"] = dict(driver="static",
                     gen=[dict(module="StaticMC", cfg="StaticMC.cfg", thorough_cfg="StaticMC_t.cfg", cap=(3000, 20000))],
                     trace=dict(module="StaticTrace", cfg="StaticTrace.cfg"),
                     assumptions=["the served directory holds no symbolic links and no directory called index.html",
                                  "the fallback names a file or nothing"])

CHECKS["C27"] = dict(driver="logger",
                     gen=[dict(module="LoggingMC", cfg="LoggingMC.cfg", thorough_cfg="LoggingMC_t.cfg")],
                     trace=dict(module="LoggingTrace", cfg="LoggingTrace.cfg"),
                     assumptions=["settings are not changed while records are being logged"])

CHECKS["C28"] = dict(driver="apires",
                     gen=[dict(module="ApiresMC", cfg="ApiresMC.cfg", thorough_cfg="ApiresMC_t.cfg", cap=(1500, 20000))],
                     trace=dict(module="ApiresTrace", cfg="ApiresTrace.cfg"),
                     assumptions=["API errors are made by NewResError and derivations of such",
                                  "statuses allow a body, or are 204"])

CHECKS["C29"] = dict(driver="ctxval",
                     gen=[dict(module="CtxValMC", cfg="CtxValMC.cfg", thorough_cfg="CtxValMC_t.cfg", cap=(2000, 20000))],
                     trace=dict(module="CtxValTrace", cfg="CtxValTrace.cfg"),
                     assumptions=["values are stored by non-nil pointers to them, and their types are neither pointers nor basic types"])

CHECKS["C35"] = dict(driver="reqctx",
                     gen=[dict(module="ReqContextMC", cfg="ReqContextMC.cfg", thorough_cfg="ReqContextMC_t.cfg", cap=(3000, 30000))],
                     trace=dict(module="ReqContextTrace", cfg="ReqContextTrace.cfg"),
                     assumptions=["deadlines lie in the future", "a handler derives contexts from its own chain's context"])

CHECKS["C34"] = dict(driver="serve",
                     gen=[dict(module="ServeMC", cfg="ServeMC.cfg", thorough_cfg="ServeMC_t.cfg", cap=(300, 4000))],
                     trace=dict(module="ServeTrace", cfg="ServeTrace.cfg"),
                     assumptions=["nothing else takes the loopback ports the driver has found free"])

CHECKS["C31"] = dict(driver="origin",
                     gen=[dict(module="OriginMC", cfg="OriginMC.cfg", cap=(6000, 40000))],
                     trace=dict(module="OriginTrace", cfg="OriginTrace.cfg"),
                     assumptions=["the headers are those of one proxy: a host header names one host, an original URI is a path with an optional query"])

CHECKS["C32"] = dict(driver="text",
                     gen=[dict(module="ConvertMC", cfg="ConvertMC.cfg", thorough_cfg="ConvertMC_t.cfg")],
                     trace=dict(module="TextTrace", cfg="TextTrace.cfg"),
                     assumptions=["float texts carry no more digits than the type keeps and stay clear of its limits"])

CHECKS["C33"] = dict(driver="classic",
                     gen=[dict(module="ClassicMC", cfg="ClassicMC.cfg", thorough_cfg="ClassicMC_t.cfg", cap=(1000, 40000))],
                     trace=dict(module="ClassicTrace", cfg="ClassicTrace.cfg"),
                     assumptions=["records are what the process writes to its standard error; the settings of the global logger start from known ones"])

# property -> (technique, level note)
_T = "TLA+ specification checked with TLC; recorded executions of the real code validated against it by TLC"
_G = "TLA+ specification checked with TLC; TLC-generated behaviours replayed on the real code, recorded executions validated by TLC"
NOTES = {
    "C01": (_G, "Every pair of patterns over a small alphabet with every short request, plus random larger route trees and noisy paths."),
    "C02": (_G, "Every pair of registrations over a small alphabet, plus random sequences of registration calls with conflicts."),
    "C03": (_T, "Random declaration sets over all methods, controller shapes and custom actions; every request method."),
    "C05": (_G, "Every behaviour of three chain shapes with up to two operations per handler, plus random chains on both levels; every entry, yield, resumption and return is checked."),
    "C06": (_G, "Every text of up to three characters of a number alphabet as the parameter of every scalar kind, plus random signatures of up to three arguments, routes of up to four parameters, and sequences of requests which spoil their controller."),
    "C10": (_G, "Random types (named, local, unnamed, interface), names, scope trees, forms of registration and request; fields of nested structs."),
    "C11": (_G, "Every history of three registrations and lookups over two keys and two scopes, simulated longer ones, random ones with nested invocations; every provider run is accounted for."),
    "C12": (_G, "Every history of three operations over two keys and two scopes, simulated histories of twelve over four keys, random graphs; stack overflow and hangs are caught."),
    "C14": (_G, "Every program of three calls on pools of one and two slots and random ones of up to three concurrent users with nested submission and closing, interleaved statement by statement in virtual time; every deadlock is seen."),
    "C15": (_G, "The same executions; every refusal and every reported error has to have an explanation."),
    "C13": (_G, "Every pair of two-operation scripts and random groups of up to six requests over two or three connections, first alone and then together, interleaved statement by statement in the packages involved; every event has to be explained by the request's own state and to equal what happened alone."),
    "C26": (_G, "Every pair of two-operation scripts and random ones with all filter options, client ids of every length, tampered headers and panics, interleaved statement by statement; every record is accounted for."),
    "C20": (_G, "Every recombination of two issued values with the boundary between text and time moved; random texts, keys, times, alterations and forgeries with other keys. The scheme itself is model-checked against an attacker who recombines what he sees."),
    "C21": (_G, "Every history of four calls after the first start, simulated ones of nine, on each back end; random ones of up to 40 with stale, forged, foreign and repeated cookies, several session objects, all value kinds, and a failure at any command of a call."),
    "C27": (_G, "Every history of two settings of each kind before records; random ones on several loggers with all severities, argument shapes, options, line breaks and colour codes in messages, guarded functions, and records from several goroutines at once."),
    "C28": (_G, "Every history of three derivations and writes, random ones of up to 12 with every kind of data and body, encodable or not, statuses, run modes, ways to return a result, shared values sent several times and at once."),
    "C29": (_G, "Every tree of up to four contexts with two types and two names, every lookup in it, over all pairs of 40 types; random larger trees."),
    "C35": (_G, "Every history of three operations on contexts by a filter before and after it yields and the action in between, all that can be seen of both contexts after each; random chains of up to five handlers, several requests."),
    "C31": (_G, "Every combination of sources with each form of address, host and URI; random addresses, lists, encoded paths and queries; as functions and through an application's parameters."),
    "C32": (_G, "Every text of up to three characters of a number alphabet, random ones around every limit, for every kind, as texts and as values of basic and named types; numbers of up to 140 bits in five alphabets."),
    "C33": (_G, "Every application of up to one hook filter and one later filter (thorough: two) with every kind of action, in two modes, with both loggers and own options; random ones of up to three and three, sequences of requests."),
    "C34": (_G, "Histories of five steps by two applications over two addresses and ports, with requests in progress, and random ones of up to four applications with settings from everywhere, in real time over loopback connections."),
    "C30": (_G, "Every interval around the one-minute limit, several loops at once, failing collections, hours of virtual time."),
    "C24": (_G, "Every path of up to four segments of an alphabet with dot segments and names outside, on seven filters; random trees with odd names, prefixes, skip lists, fallbacks, encodings, methods, ranges, and requests answered during others."),
    "C22": (_G, "Every history of four steps by two users with two salts each, plus random ones with alterations, swapped cookies, session cookies, repeated cookies and two servers."),
    "C23": (_G, "Every history of three calls and clock advances over two keys on every back end, simulated ones of eight, random ones of up to 30 with all value kinds and timeouts and three kinds of failure."),
    "C16": (_G, "Every line of up to four characters of the syntax alphabet in a file, plus random files, layers, environments and directory sets of the classic loader."),
    "C17": (_G, "Every short text for every supported kind, plus random tagged structs with sections, embedded structs, pointers, preset values and unsupported kinds."),
    "C18": (_T, "Random query, route and body pairs with shared names, url-encoded and multipart, files in memory and on disk, with and without a real connection."),
    "C19": (_G, "Every short text for every scalar, plus random nested types with parameters of matching, missing, unparsable, out-of-range and confusable names."),
    "C07": (_G, "Random return signatures and values of every kind, with earlier writes at every place."),
    "C08": (_G, "Every sequence of four response operations, plus random longer ones across handlers; the writer's reports are checked after each."),
    "C09": (_G, "Every panic position in small chains, random larger ones, all panic values, dev and prod mode, sequences of requests. Concurrency of requests is C13."),
    "C25": (_G, "Every pattern of two operations per handler around the filter, random larger ones; the body is decoded as the client would and taken apart. Filters outside it write only if nothing was written."),
    "C04": (_T, "Random route trees with filters and exemptions at every level; the execution order is compared."),
}
