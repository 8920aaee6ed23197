"""Time limits: an analysis that takes too long on the code it finds gives no verdict, it does not run on for ever."""
import signal
import time

LIMIT = {"quick": 700, "thorough": 4 * 3600}
END = time.time() + LIMIT["quick"]
ends = []


class TimeUp(Exception):
    pass


def start(tier):
    global END
    END = time.time() + LIMIT.get(tier, LIMIT["quick"])
    signal.signal(signal.SIGALRM, expired)


def expired(sig, frame):
    raise TimeUp("time limit")


def arm(end):
    if end is None:
        signal.setitimer(signal.ITIMER_REAL, 0)
    else:
        # again and again, in case a first one is lost in a handler
        signal.setitimer(signal.ITIMER_REAL, max(0.01, end - time.time()), 5)


class limited:
    """with limited(): part of the analysis that may use up a quarter of the time that is left, or some seconds"""

    def __init__(self, whole=False, seconds=None):
        self.whole = whole
        self.seconds = seconds

    def __enter__(self):
        now = time.time()
        end = END if self.whole else min(END, now + max(20, (END - now) / 4))
        if self.seconds is not None:
            end = min(end, now + self.seconds)
        if ends:
            end = min(end, ends[-1])
        if now >= end:
            raise TimeUp("time limit")
        ends.append(end)
        arm(end)

    def __exit__(self, *exc):
        ends.pop()
        arm(ends[-1] if ends else None)
