"""Cooperative tasks stepped by a seeded plan: each task is a coroutine running in its own copy of
its parent's contextvars context, as asyncio, trio or curio would run it."""
import contextvars
import types


class Cancelled(BaseException):
    pass


@types.coroutine
def pause():
    yield


class Task:
    def __init__(self, name, coro, ctx):
        self.name, self.coro, self.ctx = name, coro, ctx
        self.done = False
        self.exc = None
        self.cancel = None


class Loop:
    def __init__(self, run, picks, max_steps=5000):
        self.run, self.picks, self.tasks, self.max_steps = run, list(picks), [], max_steps
        self.trail = []
        self.between = None  # called between steps, outside of all tasks

    def spawn(self, name, coro, ctx=None):
        self.tasks.append(Task(name, coro, contextvars.copy_context() if ctx is None else ctx))
        return self.tasks[-1]

    def go(self):
        n = 0
        while True:
            live = [t for t in self.tasks if not t.done]
            if not live:
                break
            n += 1
            if n > self.max_steps:
                raise RuntimeError("workload does not end")
            t = live[(self.picks.pop(0) if self.picks else n) % len(live)]
            if len(self.trail) < 2000:
                self.trail.append(t.name)
            try:
                if t.cancel == "close":
                    self.run.count("fault:closed")
                    t.ctx.run(t.coro.close)
                    t.done = True
                elif t.cancel:
                    t.cancel = None
                    self.run.count("fault:cancelled")
                    t.ctx.run(t.coro.throw, Cancelled())
                else:
                    t.ctx.run(t.coro.send, None)
            except StopIteration:
                t.done = True
            except (Exception, Cancelled) as e:
                t.done = True
                t.exc = e
            if self.between:
                self.between()
        self.run.count("task_steps", n)
        self.run.cov("tasks", tuple(self.trail))
