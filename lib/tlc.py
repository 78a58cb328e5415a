"""Running TLC."""
import os, re, signal, subprocess, tempfile, shutil, json
from cm import VERIF, WORK, HarnessError

SPEC = os.path.join(VERIF, "spec")


class Timeout(HarnessError):
    pass


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The number of states generated: (\d+)", out)
        if m and not self.generated:
            self.generated = self.distinct = int(m.group(1))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    def printed(self, tag):
        """Values printed as "TAG json"."""
        r = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag + " "):
                s = json.loads(line)
                r.append(json.loads(s[len(tag) + 1:]))
        return r


def tlc(module, cfg, env=None, args=(), workers=8, timeout=800, heap="8g", cfg_text=None):
    """Run TLC on spec/<module>.tla; raises HarnessError if it cannot be run properly."""
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="tlc", dir=WORK)
    try:
        if cfg_text is not None:
            cfg = os.path.join(d, "gen.cfg")
            with open(cfg, "w") as f:
                f.write(cfg_text)
        else:
            cfg = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cp = "/opt/veriftools/tla/tla2tools.jar"
        for j in ("CommunityModules-deps.jar", "CommunityModules.jar"):
            p = os.path.join("/opt/veriftools/tla", j)
            if os.path.exists(p):
                cp += ":" + p
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", f"-XX:+Use{'Serial' if workers == 1 else 'Parallel'}GC", "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE",
               "-config", cfg, *args, module + ".tla"]
        e.pop("JAVA_TOOL_OPTIONS", None)
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise Timeout(f"TLC on {module} took more than {timeout} s") from ex
        return TlcResult(out.decode("utf-8", "replace"), p.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_ok(r, what):
    """Exhaustive runs of the specification itself must succeed."""
    if r.rc != 0 or "Error:" in r.out:
        raise HarnessError(f"TLC failed on {what}:\n" + r.out[-4000:])
    return r
