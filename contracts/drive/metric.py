"""drivers of C12: sequences of measurements of any length"""


def measure(m, n):
    for i in range(n):
        m.pre()
        m.post()


def measure_and_read(m, n):
    for i in range(n):
        m.pre()
        m.post()
        m.compute()
