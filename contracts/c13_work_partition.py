"""C13: distributed work is a partition of all work."""
from dv.contract import contract


@contract("C13", "every sample is traced by exactly one rank")
def sampler(b):
    M, more, W = b.int("heliostats", 1, 5), b.int("more", 0, 9), b.int("world", 1, 6)
    N = M + more
    r = b.int("rank", 0, 5)
    b.assume(b.lt(r, W))
    got = b.mod("raytracing.sampling").RestrictedDistributedSampler(number_of_samples=N, number_of_active_heliostats=M, world_size=W, rank=r).rank_indices
    R = b.min(M, W)

    def one(i):
        # sample i lies in block w of M consecutive blocks, and the blocks are dealt to the ranks in turn
        w = ((i + 1) * M - 1) // N
        start, end = (lambda k: (k * N) // M), (lambda k: ((k + 1) * N) // M)
        b.lemma("one block per sample", b.forall((M,), lambda k: b.iff(b.and_(b.le(start(k), i), b.lt(i, end(k))), b.eq(k, w))))
        f = lambda k: b.ite(b.and_(b.eq(k % R, r), b.le(start(k), i), b.lt(i, end(k))), 1, 0)
        b.sums_equal("only its own block counts", M, f, lambda k: b.ite(b.and_(b.eq(k, w), b.eq(w % R, r)), 1, 0))
        b.lemma("dealt block by block", b.eq(b.count(got, i), b.sum(M, f)))
        b.prove("dealt to one rank, once", b.eq(b.count(got, i), b.ite(b.eq(w % R, r), 1, 0)))
        return True

    b.prove_all("sample", (N,), one)
    i = b.int("i", -3, 20)
    b.prove("nothing but samples", b.implies(b.or_(b.lt(i, 0), b.le(N, i)), b.eq(b.count(got, i), 0)))


@contract("C13", "every heliostat group is worked on, and every rank works when there are enough groups", bounded="worlds of up to 24 ranks and 24 groups, exhaustively", trials=1)
def groups(b):
    f = b.mod("util.env").distribute_groups_among_ranks
    for W in range(1, 25):
        for G in range(1, 25):
            m, nested = f(W, G)
            b.prove("one entry per rank", b.lit(sorted(m) == list(range(W))))
            b.prove("nested exactly when ranks outnumber groups", b.lit(nested == (W > G)))
            every = [g for gs in m.values() for g in gs]
            b.prove("only groups", b.lit(set(every) == set(range(G))))
            b.prove("every rank works unless groups are fewer", b.lit(all(len(gs) == 1 for gs in m.values()) if W > G else len(every) == G))
            sizes = [sum(g in gs for gs in m.values()) for g in range(G)]
            b.prove("ranks are spread evenly", b.lit(max(sizes) - min(sizes) <= 1))
            loads = [len(gs) for gs in m.values()]
            b.prove("groups are spread evenly", b.lit(max(loads) - min(loads) <= 1))
