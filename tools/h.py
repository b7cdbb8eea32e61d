def sub(f, a, b, n=1):
    s = open(f).read()
    assert s.count(a) == n, (f, s.count(a), a)
    open(f, "w").write(s.replace(a, b))
