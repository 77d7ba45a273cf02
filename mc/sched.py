"""
A controlled scheduler for real threads.

Threads run one at a time. Every line (or bytecode) that a thread executes in
the code under test is a scheduling point, seen through sys.settrace; at a
point the scheduler may preempt the running thread. An execution is determined
by who starts and by the list of preemptions [(step, thread to run)], so it can
be replayed, and all executions up to a preemption bound can be enumerated.
"""
import sys
import threading

BLOCKED_S = 0.5


class Deadlock(Exception):
    """No thread can go on."""


class Execution(object):
    """
    One execution. `grain` says where the scheduling points are:

        bytecodes   before every bytecode of the files
        lines       before every line
        points      before every line, except that a call into the
                    (thread-local) context is one point
        chosen      before every line of the functions that `chosen` chooses
        calls       at every call of a function

    With `count`, points are counted (and `running_at` filled) to the end;
    otherwise only up to the last preemption of the plan.
    """

    def __init__(self, bodies, files, start, preemptions, grain='lines', count=True, chosen=None):
        self.bodies, self.files, self.grain = bodies, files, grain
        self.chosen = chosen
        self.plan = dict(preemptions)
        self.todo = sorted(self.plan)
        self.next = self.todo.pop(0) if self.todo else -1
        self.count = count
        self.off = not count and self.next < 0
        self.turn = start
        self.step = 0
        self.runs = [[start, 0]]      # [thread, number of steps]
        self.done = [False] * len(bodies)
        self.results = [None] * len(bodies)
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.all_done = threading.Semaphore(0)
        self.blocked = False
        self.diverged = False
        self.switches = []

    @property
    def running_at(self):
        out = []
        for who, n in self.runs:
            out.extend([who] * n)
        return out

    def hand_to(self, who):
        self.runs[-1][1] = self.step - sum(n for _, n in self.runs[:-1])
        self.runs.append([who, 0])
        self.turn = who
        self.sems[who].release()

    def wait(self, me):
        self.sems[me].acquire()
        while self.turn != me:
            self.sems[me].acquire()

    def preempt(self, me):
        k = self.step - 1
        to = self.plan[k]
        if self.todo:
            self.next = self.todo.pop(0)
        else:
            self.next = -1
            self.off = not self.count
        if self.done[to]:
            self.diverged = True          # reported in the evidence
        elif to != me:
            self.switches.append((k, me, to))
            self.hand_to(to)
            self.wait(me)
        if self.off:
            sys.settrace(None)

    def tracer(self, me):
        files, grain = self.files, self.grain
        what = 'opcode' if grain == 'bytecodes' else 'line'

        def point():
            if self.turn != me:           # only after having been blocked
                self.wait(me)
            k = self.step
            self.step = k + 1
            if k == self.next:
                self.preempt(me)

        def local(frame, event, arg):
            if event == what:
                # inlined for speed
                if self.turn != me:
                    self.wait(me)
                k = self.step
                self.step = k + 1
                if k == self.next:
                    self.preempt(me)
                    if self.off:
                        return None
            return local

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(files):
                return None
            if grain == 'calls' or (
                    grain == 'points' and frame.f_code.co_filename.endswith('context.py')):
                point()
                return None
            if grain == 'chosen' and not self.chosen(frame.f_code):
                return None
            if grain == 'bytecodes':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return trace

    def thread(self, me):
        self.wait(me)
        if not self.off:
            sys.settrace(self.tracer(me))
        try:
            out = 'returned', self.bodies[me]()
        except Exception as ex:
            out = 'raised', ex
        finally:
            sys.settrace(None)
        if self.turn != me:
            self.wait(me)
        self.results[me] = out
        self.done[me] = True
        for other, done in enumerate(self.done):
            if not done:
                self.hand_to(other)
                break
        else:
            self.runs[-1][1] = self.step - sum(n for _, n in self.runs[:-1])
            self.all_done.release()

    def run(self):
        threads = [threading.Thread(target=self.thread, args=(i,)) for i in range(len(self.bodies))]
        for t in threads:
            t.daemon = True
            t.start()
        self.hand_to(self.turn)
        seen, idle = -1, 0
        while not self.all_done.acquire(timeout=BLOCKED_S):
            if self.step != seen:
                seen, idle = self.step, 0
                continue
            # nothing moves: the running thread waits for another one
            idle += 1
            if idle > 20:
                raise Deadlock('every thread waits for another')
            waiting = [i for i, d in enumerate(self.done) if not d and i != self.turn]
            if waiting:
                self.blocked = True
                self.hand_to(waiting[idle % len(waiting)])
        for t in threads:
            t.join()
        return self


def alternatives(ex, k, running, last):
    """Whom the scheduler may run instead at step k of an execution."""
    me = running[k]
    return [i for i in range(len(ex.bodies)) if i != me and last.get(i, 1 << 60) >= k]


def last_steps(ex):
    out, n = {}, 0
    for who, steps in ex.runs:
        n += steps
        if steps:
            out[who] = n - 1
    return out
