#!/usr/bin/env python3
"""Writes the `fixed:` lines of KNOWN_FINDINGS from the fix: commits of /repo; `finding:` lines in it are kept."""
import subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = {  # start of the commit subject -> (properties, what failed)
 "dynamic engine waits": ("C03 C04", "run() returned while elements dispatched by the dynamic engine were still executing"),
 "crash status raised": ("C05 C03", "an exception of an element run by the topo or static engine escaped run() or crashed the process"),
 "status passed to CGRAPH_THROW": ("C05", "the argument of CGRAPH_THROW_EXCEPTION_BY_STATUS was evaluated several times, elements ran again"),
 "parallel multi condition": ("C07", "a parallel multi condition evaluated later matches while earlier elements were running"),
 "mutable group": ("C09", "a mutable group executed although its structure had been rejected"),
 "makeSerial rejects": ("C02", "makeSerial accepted a chain whose elements are bound to different threads and run() never executed them"),
 "parameter lookup": ("C15", "looking a parameter up raced with the creation of another one (use after free in the map)"),
 "stage releases every waiter": ("C18", "a waiter of a stage missed its round when others re-entered early, and waited for ever"),
 "stage releases the waiting": ("C18 C05", "a throwing launch function left the other members of the stage waiting for ever"),
 "timer stop": ("C19", "stop of a timer got lost and took a full interval"),
 "pipeline destroy waits": ("C17", "destroy() freed the thread pool while asynchronous events were running"),
 "cancel, suspend and resume": ("C10 C11", "cancel or suspend reached some elements only, or lost an execution"),
 "cancel between two rounds": ("C10", "a cancel between two rounds of process() was overwritten"),
 "a task put into the shared": ("C12 C23", "a task put into the shared queue did not wake a sleeping thread"),
 "late result of an asynchronous": ("C12 C13", "the late result of an asynchronous element was handled twice, lost, or taken for the one of the next run"),
 "quorum group waits": ("C08", "the remaining elements of a quorum group ran on after run(); stale triggers were counted"),
 "an element which can not time out": ("C08", "an element without a time limit occupied two pool threads, nested groups deadlocked"),
 "quorum group asks": ("C08", "getWaitNum() was called while the previous execution was unfinished"),
 "commitWithTid": ("C22", "commitWithTid() did not compile"),
 "priority queue of the thread pool": ("C26", "priority tasks were ordered by the address of the task"),
 "secondary threads are counted": ("C27", "concurrent creation exceeded max_thread_size; the list of threads was changed while in use"),
 "a priority or long time task": ("C22 C27", "priority and long time tasks were never executed without a secondary thread"),
 "destroy of the thread pool": ("C24", "the monitor survived destroy(), futures of dropped tasks blocked for ever, re-init with a monitor terminated the process"),
}
F.update(eval(open(os.path.join(HERE, "tools", "fixed_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "fixed_more.py")) else {})
path = os.path.join(HERE, "KNOWN_FINDINGS")
keep = [l for l in open(path) if l.startswith("finding:")] if os.path.exists(path) else []
out, used = [], set()
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    k = [k for k in F if s[5:].startswith(k)]
    assert k, s
    for p in F[k[0]][0].split(): out.append("fixed: property=%s %s %s\n" % (p, h, F[k[0]][1]))
open(path, "w").writelines(keep + out)
