#!/usr/bin/env python3
"""mutate.py OUT.jsonl WORKERS FRACTION GROUP...: systematic small changes to /repo's sources, each judged by the checks of its file's
group; what no check catches is to be looked at (development aid).  Restarts where OUT left off."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUPS = {
    "buffer": (["C03", "C01", "C02"], ["src/common/circular_buffer.h", "src/common/atomic_unique_ptr.h", "src/common/circular_buffer_range.h", "src/common/spin_lock_mutex.h"]),
    "write": (["C04"], ["src/network/vector_write.cpp", "src/common/platform/network_unix.cpp"]),
    "streams": (["C05", "C07"], ["src/common/chained_stream.cpp", "src/common/chained_stream.h", "src/common/fragment_array_input_stream.cpp", "src/common/fragment_array_input_stream.h", "src/common/fragment_input_stream.cpp", "src/common/fragment_input_stream.h", "src/common/composable_fragment_input_stream.cpp", "src/common/composable_fragment_input_stream.h", "src/common/buffer_chain.cpp", "src/common/function_ref.h"]),
    "wire": (["C06", "C18"], ["src/common/serialization.h", "src/common/serialization.cpp", "src/common/direct_coded_output_stream.h", "src/common/protobuf.h", "src/common/protobuf.cpp", "src/common/utility.cpp", "src/recorder/serialization/embedded_metrics_message.cpp"]),
    "report": (["C07", "C22"], ["src/recorder/serialization/report_request.cpp", "src/recorder/serialization/report_request_header.cpp", "src/recorder/report_builder.cpp"]),
    "spans": (["C08", "C23"], ["src/recorder/stream_recorder/span_stream.cpp", "src/recorder/stream_recorder/connection_stream.cpp", "src/common/report_request_framing.cpp", "src/common/report_request_framing.h", "src/recorder/stream_recorder/embedded_metrics_message.cpp"]),
    "metrics": (["C09"], ["src/recorder/metrics_tracker.cpp", "src/recorder/metrics_tracker.h"]),
    "random": (["C11", "C10"], ["src/common/random.cpp", "src/common/random.h", "src/common/fast_random_number_generator.h", "src/common/random_traverser.cpp", "src/common/platform/fork_unix.cpp"]),
    "time": (["C12", "C07"], ["src/common/timestamp.cpp", "src/common/timestamp.h"]),
    "utility": (["C19"], ["src/tracer/utility.cpp"]),
    "endpoints": (["C13", "C23"], ["src/recorder/stream_recorder/satellite_endpoint_manager.cpp", "src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp", "src/recorder/stream_recorder/utility.cpp", "src/recorder/stream_recorder/host_header.cpp"]),
    "address": (["C14", "C13"], ["src/network/ip_address.cpp", "src/network/ip_address.h"]),
    "socket": (["C15", "C24"], ["src/network/socket.cpp", "src/network/socket.h"]),
    "map": (["C16"], ["src/common/flat_map.h"]),
    "hex": (["C17"], ["src/common/hex_conversion.h", "src/common/hex_conversion.cpp"]),
    "span": (["C18", "C19", "C27"], ["src/tracer/span.cpp", "src/tracer/legacy/legacy_span.cpp", "src/tracer/serialization.cpp", "src/tracer/serialization.h", "src/tracer/tracer_impl.cpp", "src/tracer/legacy/legacy_tracer_impl.cpp", "src/tracer/immutable_span_context.cpp", "src/tracer/lightstep_span_context.cpp"]),
    "propagation": (["C20", "C21", "C34"], ["src/tracer/propagation/" + x for x in ("baggage_propagator.cpp", "propagation.cpp", "trace_context.cpp", "trace_context_propagator.cpp", "propagation_options.cpp", "binary_propagation.cpp", "envoy_propagator.cpp", "multiheader_propagator.cpp", "cloud_trace_propagator.cpp", "b3_propagator.cpp", "lightstep_propagator.cpp", "utility.cpp", "propagation.h")] + ["src/tracer/binary_carrier.cpp"]),
    "manual": (["C22", "C26"], ["src/recorder/manual_recorder.cpp", "src/recorder/legacy_manual_recorder.cpp", "src/recorder/fork_aware_recorder.cpp"]),
    "auto": (["C25", "C24"], ["src/recorder/auto_recorder.cpp"]),
    "streaming": (["C23", "C24", "C26"], ["src/recorder/stream_recorder/stream_recorder.cpp", "src/recorder/stream_recorder/stream_recorder_impl.cpp", "src/recorder/stream_recorder/satellite_connection.cpp", "src/recorder/stream_recorder/satellite_streamer.cpp"]),
    "dns": (["C28"], ["src/network/ares_dns_resolver/ares_dns_resolver.cpp", "src/network/ares_dns_resolver/ares_library_handle.cpp"]),
    "config": (["C29"], ["src/tracer/json_options.cpp", "src/tracer/lightstep_tracer_factory.cpp", "src/tracer/tracer.cpp", "src/tracer/dynamic_load.cpp"]),
    "logger": (["C30"], ["src/common/logger.cpp", "src/common/logger.h"]),
    "status": (["C31"], ["src/recorder/stream_recorder/status_line_parser.cpp"]),
    "locks": (["C27", "C24", "C25", "C22", "C26"], ["src/tracer/span.cpp", "src/tracer/span.h", "src/tracer/legacy/legacy_span.cpp", "src/tracer/legacy/legacy_span.h", "src/recorder/auto_recorder.cpp", "src/recorder/auto_recorder.h", "src/recorder/fork_aware_recorder.cpp", "src/recorder/manual_recorder.cpp", "src/recorder/stream_recorder/stream_recorder.cpp"]),
    "events": (["C32"], ["src/network/event.cpp", "src/network/event.h", "src/network/event_base.cpp", "src/network/timer_event.cpp", "src/network/timer_event.h"]),
}
SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"),
         (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"), (r"memory_order_(acquire|release|acq_rel|seq_cst)", "memory_order_relaxed"),
         (r"std::move\(([\w.>-]+)\)", r"\1"), (r"\bcontinue;", "break;"), (r"\bbreak;", ""), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r" << ", " >> "), (r" >> ", " << "),
         (r" & ", " | "), (r" \| ", " & "), (r"noexcept", "")]
def mutants(path):
    text = open("/repo/" + path).read()
    lines = text.split("\n")
    r = []
    for i, l in enumerate(lines):
        code = l.split("//")[0]
        s = code.strip()
        if not s or s.startswith(("#", "using ", "namespace ", "*", "static_assert", "assert", "friend", "template")) or "operator=(const" in s or "= delete" in s:
            continue
        incl = "<<" in code and ('"' in code or "oss" in code)
        for pat, rep in SWAPS:
            if pat == "noexcept" or (incl and "<<" in pat):
                continue
            if "memory_order" not in pat and re.search(r"^\s*(const |static |inline )*[\w:<>*&, ]+ [\w:]+\(.*\{$", code) and "if" not in s and "for" not in s and "while" not in s:
                continue
            for m in re.finditer(pat, code):
                if pat == r" & " and re.search(r"[\w>] & \w+[,)]", code): continue
                n = code[:m.start()] + m.expand(rep) + code[m.end():]
                r.append((i, n, "%s -> %s" % (m.group(0).strip(), m.expand(rep).strip())))
        for m in re.finditer(r"(?<![\w.\"'x])(\d+)(?![\w.\"'])", code):
            if re.search(r"uint\d|int\d", code[max(0, m.start() - 4):m.end()]): continue
            n = code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():]
            r.append((i, n, "%s -> +1" % m.group(1)))
        m = re.match(r"^(\s*(?:\} else )?(?:if|while) \()(.*)(\) \{)$", code.rstrip())
        if m:
            r.append((i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negated"))
            r.append((i, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "never"))
        if re.match(r"^\s*(std::lock_guard<|SpinLockGuard )", code):
            r.append((i, "", "unlocked"))
        if re.match(r"^\s*(?!return|throw|break|continue|else|case|default|const |auto |std::\w+ \w+|static|uint|int |size_t|bool |char)[\w*:(.>\[\]-]+.*;$", code) and (i == 0 or re.search(r"[;{}:]\s*$", lines[i - 1].split("//")[0]) or not lines[i - 1].split("//")[0].strip()):
            if not re.match(r"^\s*[\w:<>*&, ]+ [\w]+( = .*|\{.*\}|)?;$", code) or re.match(r"^\s*[\w.>*\[\]-]+ [+*/|&-]?= ", code):
                r.append((i, "", "deleted"))
    return [(path, i, lines[i], n, w) for i, n, w in r if n != lines[i]]
def main():
    out, workers, frac = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    todo = queue.Queue()
    allm = []
    for g in sys.argv[4:]:
        checks, files = GROUPS[g]
        for f in files:
            if os.path.exists("/repo/" + f):
                for m in mutants(f):
                    if os.environ.get("MUT_WHAT", m[4]) != m[4]: continue
                    k = hashlib.sha1(repr(m).encode()).hexdigest()[:12]
                    if int(k, 16) % 1000 < frac * 1000 and k not in done:
                        allm.append((k, m, checks))
    for x in allm: todo.put(x)
    print(len(allm), "to do", flush=True)
    lock = threading.Lock()
    def work(w):
        base = "/tmp/mutw%s/%d" % (os.environ.get("MUT_DIR", ""), w)
        shutil.rmtree(base + "/repo", ignore_errors=True)
        os.makedirs(base, exist_ok=True)
        shutil.copytree("/repo", base + "/repo", ignore=shutil.ignore_patterns("_build", ".git"))
        env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_BUILD=base + "/build", VERIF_SEED="1", VERIF_TIER="quick", VF_FAILFAST="1")
        while True:
            try: k, (path, i, old, new, what), checks = todo.get_nowait() if not os.path.exists("/tmp/mutstop") else sys.exit()
            except queue.Empty: return
            p = base + "/repo/" + path
            orig = open(p).read()
            ls = orig.split("\n")
            assert ls[i] == old
            ls[i] = new
            open(p, "w").write("\n".join(ls))
            res, by = "SURVIVED", ""
            for c in checks:
                pr = subprocess.Popen([V + "/check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
                try:
                    o, _ = pr.communicate(timeout=300)
                    rc = pr.returncode
                except subprocess.TimeoutExpired:
                    o, rc = "", "hang"
                try: os.killpg(pr.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                subprocess.call(["pkill", "-KILL", "-f", base + "/build/"])
                pr.wait()
                if rc == "hang": res, by = "hang", c; break
                if rc == 1:
                    m = re.search(r"^%s: (\S+)" % c, o, re.M)
                    res, by = "killed", c + " " + (m.group(1) if m else ""); break
                if rc == 2:
                    res, by = ("nobuild" if "build failed" in o else "error " + o[-200:]), c; break
            open(p, "w").write(orig)
            with lock:
                open(out, "a").write(json.dumps(dict(id=k, file=path, line=i + 1, old=old.strip(), new=new.strip(), what=what, result=res, by=by)) + "\n")
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
if __name__ == "__main__":
    if sys.argv[1] == "--count":
        for g, (c, fs) in GROUPS.items():
            print(g, [(f, len(mutants(f)) if os.path.exists("/repo/" + f) else None) for f in fs])
    else:
        main()
