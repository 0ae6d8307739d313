"""
Systematic exploration of thread interleavings (stateless, with a preemption bound).

Exactly one of the threads runs at a time; at a scheduling point it asks the scheduler which thread is
next.  `explore` executes the bodies again and again, first without any preemption, then with every
choice of up to `bound` preemptions.
"""
import threading
import time


class Diverged(Exception):
    """ replaying a prefix of choices did not reach the same scheduling points """


class Deadlock(Exception):
    pass


class Run:
    """ one execution """

    def __init__(self, bodies, choices):
        self.choices, self.made = list(choices), []
        self.points = []            # (enabled threads with the running one first, running still enabled)
        self.n = len(bodies)
        self.done = [False] * self.n
        self.waiting = [False] * self.n     # blocked until another thread releases something
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.error = None
        self.free = False       # given up: the threads run without control to their end
        self.last, self.steps = [0] * self.n, 0
        self.ids = {}
        self.finished = threading.Event()
        self.threads = [threading.Thread(target=self._main, args=(i, b), daemon=True) for i, b in enumerate(bodies)]

    def _main(self, i, body):
        self.sem[i].acquire()
        try:
            body()
        except BaseException as e:  # pylint: disable=broad-except
            self.error = self.error or e
        self.done[i] = True
        self.release()
        if all(self.done):
            self.finished.set()
        else:
            self._next(i, False)

    def me(self):
        return self.ids.get(threading.get_ident())

    def release(self):
        """ something was released: waiting threads may go on """
        self.waiting = [False] * self.n

    def _next(self, i, enabled):
        """ choose who runs after thread i """
        others = [t for t in range(self.n) if t != i and not self.done[t] and not self.waiting[t]]
        if not others and not enabled:
            # everybody waits: let them run into their time outs
            # in turns, without a choice
            self.release()
            others = [min((t for t in range(self.n) if not self.done[t]), key=lambda t: self.last[t])]
        cand = ([i] if enabled else []) + others
        k = 0
        if len(cand) > 1:
            if len(self.points) < len(self.choices):
                k = self.choices[len(self.points)]
                if k >= len(cand):
                    self.error = self.error or Diverged(f'choice {k} of {cand} at point {len(self.points)}')
                    k = 0
            self.points.append((len(cand), enabled))
            self.made.append(k)
        t = cand[k]
        self.steps += 1
        self.last[t] = self.steps
        if t != i:
            self.sem[t].release()
        return t

    def point(self):
        """ a scheduling point of the running thread """
        i = self.me()
        if i is None or self.free:
            return
        if self._next(i, True) != i:
            self.sem[i].acquire()

    def wait(self):
        """ the running thread cannot go on until another one releases something """
        i = self.me()
        if i is None or self.free:
            return
        self.waiting[i] = True
        if self._next(i, False) != i:
            self.sem[i].acquire()
        self.waiting[i] = False

    def run(self, timeout=50):
        for t in self.threads:
            t.start()
        self.ids = {t.ident: i for i, t in enumerate(self.threads)}
        self._start()
        try:
            if not self.finished.wait(timeout):
                raise Deadlock('the threads did not end')
            for t in self.threads:
                t.join(timeout)
        except BaseException:   # also when the case takes too long: no thread should disturb the next one
            self._give_up()
            raise
        if self.error:
            raise self.error

    def _give_up(self):
        self.free = True
        until = time.time() + 5
        while time.time() < until and any(t.is_alive() for t in self.threads):
            for sem in self.sem:
                sem.release()
            time.sleep(0.01)

    def _start(self):
        k = 0
        if self.n > 1:
            if self.choices:
                k = self.choices[0]
            self.points.append((self.n, False))
            self.made.append(k)
        self.sem[k].release()


def explore(execute, bound, first=lambda i: True, root=()):
    """ execute(choices) -> Run (checked); all choices that start with `root`, with up to `bound` preemptions,
    of which the first deviation from the default after `root` is at a point that satisfies `first`; returns
    the number of executions """
    runs = 0
    stack = [tuple(root)]
    while stack:
        prefix = stack.pop()
        r = execute(prefix)
        runs += 1
        cost = 0
        for i, (n, running) in enumerate(r.points):
            if i >= len(prefix):
                extra = cost + (1 if running else 0)
                if extra <= bound and (len(prefix) > len(root) or first(i)):
                    for alt in range(1, n):
                        stack.append(tuple(r.made[:i]) + (alt,))
            if running and r.made[i] != 0:
                cost += 1
    return runs
