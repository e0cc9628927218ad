'''
Runs functions in threads of their own, of which only one at a time gets on. Which one, and for how
many lines of the code under test, is given by a schedule, so that a run can be repeated.
'''
import sys
import threading

STUCK = 0.05    # Seconds after which who has the turn counts as waiting for another one


class Schedule:
    '''functions: to be run. turns: list of (number of lines, who is next). prefixes: of files whose lines count'''
    def __init__(self, functions, turns, prefixes):
        self.functions, self.turns, self.prefixes = functions, turns, tuple(prefixes)
        self.cond = threading.Condition()
        self.alive = list(range(len(functions)))
        self.current = 0
        self.lines = 0          # Of all, to see whether anything gets on
        self.switches = []      # (from, to)
        self.errors = {}
        self.position = 0
        self.left = turns[0][0] if turns else None

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in self.alive]
        for t in threads:
            t.start()
        for t in threads:
            t.join()

    def body(self, i):
        try:
            with self.cond:
                self.wait(i)
            trace = self.trace_lines(i)
            sys.settrace(lambda frame, what, arg: trace if self.left is not None and frame.f_code.co_filename.startswith(self.prefixes) else None)
            try:
                self.functions[i]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.errors[i] = e
        finally:
            with self.cond:
                self.alive.remove(i)
                if self.current == i and self.alive:
                    self.hand_over(i)

    def trace_lines(self, i):
        def trace(frame, what, arg):
            if what == 'line':
                self.line(i)
            return trace
        return trace

    def line(self, i):
        self.lines += 1
        if self.current != i:
            # After having been stuck
            with self.cond:
                self.wait(i)
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            with self.cond:
                self.hand_over(i)
                self.wait(i)

    def hand_over(self, i):
        '''To who is next'''
        to = None
        if self.position < len(self.turns):
            to = self.alive[self.turns[self.position][1] % len(self.alive)]
            self.position += 1
        if to is None:
            to = i if i in self.alive else self.alive[0]
        self.left = self.turns[self.position][0] if self.position < len(self.turns) else None
        if to != i:
            self.switches.append((i, to))
            self.current = to
            self.cond.notify_all()

    def wait(self, i):
        '''For the turn'''
        while self.current != i:
            seen = self.lines
            if not self.cond.wait(STUCK) and self.lines == seen and self.current != i:
                self.switches.append((self.current, i))
                self.current = i
