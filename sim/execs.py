"""Starts of a new interpreter by execve, each in its own environment (C05, C10)."""

import json
import os
import shutil
import signal
import subprocess
import threading
import zipfile

from sim import driver

LOCALES = [{"LC_ALL": "C"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"},
           {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LANG": "tr_TR.UTF-8"}, {"PYTHONUTF8": "1"}, {},
           {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "latin-1"}]
ZONES = ["UTC", "Asia/Tokyo", "America/St_Johns", "XYZ-13:37", ""]
TIMES = [0, 1, 86399, 951782400, 1_700_000_000, 2_147_483_647, 4_102_444_800, 4_294_967_296]
EXTRA = {"HOME": [None, "/nowhere", ""], "CI": ["true"], "DEBUG": ["1"], "TERM": ["dumb", "xterm"], "COLUMNS": ["1", "x"], "NO_COLOR": ["1"], "PATH": [None],
         "PYTHONOPTIMIZE": ["1", "2"], "PYTHONWARNINGS": ["error"], "PYTHONDEVMODE": ["1"], "PYTHONUNBUFFERED": ["1"], "SOURCE_DATE_EPOCH": ["0"],
         "LANGUAGE": ["tr:az"], "LC_NUMERIC": ["de_DE.UTF-8"], "PWD": ["/", "/nowhere"], "TEMP": ["/nowhere"], "SHELL": [None], "XDG_CACHE_HOME": ["/nowhere"],
         "OLDPWD": ["/"], "AZURE_ENVIRONMENT": ["AzureChinaCloud"], "LOGLEVEL": ["DEBUG"], "LOG_LEVEL": ["DEBUG"]}
NAMES = ["a.bicep", "main.bicep", "d\u00f6kument.bicep", "x y.bicep"]


FORMS = ["zip archive", "compiled only", "read-only directory", "odd directory"]


def drain(fd):
    """What is written to the terminal goes nowhere."""
    try:
        while os.read(fd, 1 << 16):
            pass
    except OSError:
        pass            # the other end is closed
    os.close(fd)


def installed(z, form):
    """Where the package is found in the given form of installation."""
    src = os.path.join(driver.REPO, "pycep")
    d = os.path.join(z.scratch, "form-" + form.replace(" ", "-") + ("-\u00e4 %41$HOME'\u00df" if form == "odd directory" else ""))
    if not os.path.isdir(d):
        os.makedirs(d)
        if form == "zip archive":
            with zipfile.ZipFile(os.path.join(d, "lib.zip"), "w") as f:
                for here, dirs, names in os.walk(src):
                    dirs[:] = sorted(x for x in dirs if x != "__pycache__")
                    for n in sorted(names):
                        f.write(os.path.join(here, n), os.path.relpath(os.path.join(here, n), driver.REPO))
        else:
            to = os.path.join(d, "pycep")
            shutil.copytree(src, to, ignore=shutil.ignore_patterns("__pycache__"))
            if form == "compiled only":
                subprocess.run([driver.PYTHON, "-m", "compileall", "-b", "-q", to], check=True, stdout=subprocess.DEVNULL)
                for here, _, names in os.walk(to):
                    for n in names:
                        if n.endswith(".py"):
                            os.unlink(os.path.join(here, n))
            if form == "read-only directory":
                for here, _, names in os.walk(to):
                    for n in names:
                        os.chmod(os.path.join(here, n), 0o444)
                    os.chmod(here, 0o555)
    return os.path.join(d, "lib.zip") if form == "zip archive" else d


def start(z, calls, spec, env, flags, cwd, tmp, umask, count=False, form=None, quiet=False, when=None, script="restart.py", tty=False):
    """Returns (report, "") or (None, what went wrong)."""
    e = driver.base_env(z.scratch)
    e = {k: v for k, v in e.items() if k not in ("LANG",)}
    e.update({"HOME": os.path.join(os.path.dirname(tmp), "home"), **env}, TMPDIR=tmp)
    for k in [k for k, v in e.items() if v is None]:
        del e[k]
    if "SIM_CLOCK" not in env:
        e.pop("LD_PRELOAD")
        e.pop("SIM_SHIM")
    e.pop("PYTHONPATH")
    e.pop("PYTHONDONTWRITEBYTECODE")
    e["PYTHONPYCACHEPREFIX"] = os.path.join(os.path.dirname(z.scratch), "pyc")      # made and removed by this check
    where = os.path.dirname(tmp)
    for d in ("work", "other", "home"):
        os.makedirs(os.path.join(where, d), exist_ok=True)
    c = cwd if cwd == "/" else os.path.join(where, cwd)
    gone = cwd == "gone"
    if gone:
        os.makedirs(c, exist_ok=True)
    term = os.openpty() if tty else ()
    if term:
        threading.Thread(target=drain, args=(os.dup(term[0]),), daemon=True).start()
    msg = json.dumps({"path": [installed(z, form) if form else driver.REPO, driver.VERIF], "quiet": quiet, "when": when, "tty": term[1] if term else None, "calls": calls, "docs": spec["docs"], "files": NAMES,
                      "dir": os.path.join(where, "work"), "count": count}).encode("utf-8", "surrogatepass")

    def setup():
        os.umask(umask)
        os.chdir(c)
        if gone:
            os.rmdir(c)
    p = subprocess.Popen([driver.PYTHON, *flags, os.path.join(driver.VERIF, "sim", script)], env=e, preexec_fn=setup, pass_fds=term[1:],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(msg, timeout=120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, "hang"
    finally:
        for fd in term:
            os.close(fd)
    if p.returncode == -signal.SIGKILL and out:
        return json.loads(out.decode("utf-8", "surrogatepass")), "killed"
    if p.returncode or not out:
        return None, f"exit status {p.returncode}: {err[-1500:].decode('utf-8', 'replace').replace(z.scratch, '<scratch>').replace(driver.VERIF, '<verif>')}"
    return json.loads(out.decode("utf-8", "surrogatepass")), ""
