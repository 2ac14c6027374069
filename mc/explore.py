"""Stateless choice-tree exploration and explicit-state search"""

import collections


class Diverged(RuntimeError):
    """The same prefix of choices led to a different choice point"""


class Ctx(object):

    def __init__(self, prefix, sizes):
        self.prefix = prefix
        self.sizes = sizes
        self.choices = []
        self.points = []        # (size, cost so far, tag)
        self.cost = 0

    def choose(self, n, cost=1, tag=None):
        """Returns a choice in range(n)

        0 is the default environment answer and is free, every other
        answer is a deviation which costs *cost*."""
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if self.sizes[i] != n:
                raise Diverged("choice %i: had %i alternatives, now %i" %
                               (i, self.sizes[i], n))
        else:
            c = 0
        self.points.append((n, self.cost, cost))
        self.choices.append(c)
        if c:
            self.cost += cost
        return c


def explore(run, bound=None, limit=None, shard=None):
    """Runs run(ctx) for every sequence of choices

    bound
        maximum total cost of deviations (None: unbounded)

    shard
        optional (index, count): the subtrees below the first deviation
        from the default execution are dealt out to the shards, which
        together cover the tree exactly once.

    Yields the Ctx of each completed execution (after it ran)."""
    stack = [((), ())]
    n = 0
    while stack:
        prefix, sizes = stack.pop()
        ctx = Ctx(prefix, sizes)
        run(ctx)
        n += 1
        if prefix or shard is None or shard[0] == 0:
            yield ctx
        if limit is not None and n >= limit:
            if stack:
                ctx.truncated = True
            return
        ch = ctx.choices
        allsizes = tuple(p[0] for p in ctx.points)
        for i in range(len(ch) - 1, len(prefix) - 1, -1):
            size, before, cost = ctx.points[i]
            if bound is not None and before + cost > bound:
                continue
            for alt in range(size - 1, 0, -1):
                stack.append((tuple(ch[:i]) + (alt,), allsizes[:i + 1]))
        if not prefix and shard is not None:
            stack = [x for j, x in enumerate(stack)
                     if j % shard[1] == shard[0]]


def bfs(initial, successors, canon, max_depth=None, max_states=None):
    """Explicit state search

    initial is a history (tuple), successors(history) yields
    (event, new_history), canon(history) the canonical state.  Returns
    (states, transitions, depth, capped)."""
    seen = {canon(initial)}
    frontier = collections.deque([(initial, 0)])
    transitions = 0
    depth = 0
    capped = False
    while frontier:
        hist, d = frontier.popleft()
        depth = max(depth, d)
        if max_depth is not None and d >= max_depth:
            continue
        for ev, new in successors(hist):
            transitions += 1
            k = canon(new)
            if k not in seen:
                if max_states is not None and len(seen) >= max_states:
                    capped = True
                    continue
                seen.add(k)
                frontier.append((new, d + 1))
    return len(seen), transitions, depth, capped
