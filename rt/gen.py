"""shared generators"""
WORDS = ['a', 'b', 'ab', 'A', 'B', 'apple/NN', 'apple/VB', 'be/V', 'a/b/c', '/', 'x/', '/y', 'Ä/N', 'é', 'ß/NN', '10', '9', 'Zoo/n', 'zoo/N', "o'x/NN", '.', 'the/DT']
FREQS = [0, 1, 1, 2, 2, 3, 5, 7, 10, 10, 100, 1000, -1, -2]
REALS = [0.0, 0.5, 1.0, 1.5, 2.0, 2.5, -0.5, 1e-7, 3.25, 1e20, 12345.678]


def words(rng, n, pool=None):
    pool = pool or WORDS
    n = min(n, len(pool))
    return rng.sample(pool, n)


def freq(rng, kind='mix'):
    if kind == 'int' or (kind == 'mix' and rng.random() < 0.7):
        return rng.choice(FREQS) if rng.random() < 0.8 else rng.randint(-3, 60)
    return rng.choice(REALS)


def fdict(rng, size, kind=None):
    kind = kind or rng.choice(['int', 'int', 'mix', 'real'])
    ws = words(rng, rng.randint(0, size + 1))
    return [[w, freq(rng, kind)] for w in ws]
