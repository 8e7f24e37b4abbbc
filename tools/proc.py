"""Runs a prover, with a time limit, and ends all of them once the search has an input that violates the contract."""
import os
import signal
import subprocess
import time

GRACE = 60  # seconds for the provers, once there is such an input
_stop_at = None


def found():
    """There is a concrete violation: what the provers still say does not change the verdict."""
    global _stop_at
    _stop_at = time.time() + GRACE


def is_found():
    return _stop_at is not None


def run(cmd, timeout, cwd=None, env=None, merged=False):
    """(stdout, stderr, why it was ended or ""); the process and all its children end at the time limit."""
    end = time.time() + timeout
    p = subprocess.Popen(
        cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merged else subprocess.PIPE, text=True, errors="replace", start_new_session=True
    )
    why = ""
    while True:
        now = time.time()
        try:
            out, err = p.communicate(timeout=max(0.05, min(1.0, end - now)))
            return out or "", err or "", why
        except subprocess.TimeoutExpired:
            now = time.time()
            if now >= end or (_stop_at is not None and now >= _stop_at):
                why = why or ("timed out" if now >= end else "stopped: the search has an input that violates the contract")
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                end = now + 5
