"""Writes MANIFEST.json from the check modules (kept as a program so that it stays in step with them)"""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "runtime monitoring: online oracle with an independent reference model of the protocol and of the memory"
SCH = "runtime monitoring under a controlled (seeded, replayable) thread scheduler"
TECH = {
 "C01": REF, "C02": REF, "C03": REF + ", hostile inputs", "C04": REF + ", random histories", "C05": REF + ", random histories",
 "C06": SCH + ", linearizability checker over recorded histories",
 "C07": REF + "; " + SCH + " with a linearizability checker",
 "C08": REF + " and execution counters; " + SCH,
 "C09": "runtime monitoring of real TCP connections, ordering and exactly-once oracle per connection",
 "C10": "runtime monitoring with fault injection (hostile clients, descriptor exhaustion), memory and descriptor oracles",
 "C11": "runtime monitoring with a scripted faulty slave, oracle over the exchanged bytes",
 "C12": "runtime monitoring with an independent encoder and decoder of the protocol",
 "C13": "runtime monitoring with enumerated corruptions of frames, independent CRC oracle",
 "C14": "runtime monitoring on a scripted serial port with fault injection, exactly-once oracle",
 "C15": "runtime monitoring on a scripted serial port with fault injection, oracle over the exchanged bytes",
 "C16": "runtime monitoring with a scripted faulty slave, oracle over the exchanged bytes",
 "C17": SCH + " and stress with free threads, exchange log oracle",
 "C18": SCH + " and stress with free threads, uniqueness oracle over the issued ids",
 "C19": SCH + " and stress with free threads and real sockets, resource and execution oracles",
 "C20": "runtime monitoring of recorded hook calls against a model of the documented contract; " + SCH,
 "C21": "runtime monitoring of twin executions (observed and not observed), trace comparison",
 "C22": "runtime monitoring of the simulator over its RPC and console interfaces, exactly-once and reference model oracles",
 "C23": SCH + ", trace oracle of the lifecycle",
 "C24": REF + ", independent struct packing",
 "C25": REF + " on several servers at once",
 "C26": SCH + ", deadlock detector",
 "C27": "runtime monitoring of recorded network histories with connection cuts, linearizability checker",
 "C28": REF + " through the adapter",
 "C30": "runtime monitoring of the connections and of the port as the slave sees them, with cuts, silences and absences; descriptor oracle",
 "C31": "runtime monitoring of the timeouts in force at each read of a scripted serial port, independent computation",
 "C32": "runtime monitoring of the log records against the bytes seen on the line",
 "C34": "runtime monitoring of the objects, the traced memory, the threads and the descriptors of a process under repeated use",
 "C35": "runtime monitoring under injected interruptions: signals at random instants, exceptions from the port and the hooks",
 "C36": "runtime monitoring of RTU masters and servers on real ports of pyserial (ptys) against the model of the slave, with unplugged devices and stops at random instants",
 "C37": "runtime monitoring of masters in parallel: slaves which hold their answers until the others have ended, gateways, and a controlled scheduler",
 "C33": "runtime monitoring of the line during refused calls and of the exchange which follows",
}
WEB = ("the web HMI (hmi/master_webhmi.py, a Python 2 source that needs the bottle framework) can not be started here: Python 2 "
       "and bottle are not installed and nothing can be fetched, so there is no execution to monitor")
checks, missing = [], []
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    pid = p["id"]
    path = os.path.join(ROOT, "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        missing.append(dict(property=pid, reason=WEB if pid == "C29" else "no check yet"))
        continue
    tree = ast.parse(open(path).read())
    val = {n.targets[0].id: ast.literal_eval(n.value) for n in tree.body
           if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS", "LEVEL")}
    note = ("Held on the executions produced, which are counted in the evidence; no claim about the others. What a case is: "
            + val["RULE"] + ". Assumes: " + ("; ".join(val["ASSUMPTIONS"]) or "nothing more") + ".")
    checks.append(dict(property=pid, quick_cmd="bash check.sh %s" % pid,
                       thorough_cmd="VERIF_TIER=thorough bash check.sh %s" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=TECH[pid], level=val["LEVEL"], level_note=note))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fil:
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=missing,
                   notes="No hooks were added to /repo: the monitors observe the library from outside (its documented hooks, "
                         "its sockets, a stand-in serial port, the scheduler). modbus_tk is pure Python: the compiler "
                         "sanitizers have nothing to instrument."), fil, indent=1)
    fil.write("\n")
