"""What a check found: alarms (with the construct that breaks the rule), obligations, undecided items."""


class Alarm:
    def __init__(self, key, what, where="", detail=""):
        self.key, self.what, self.where, self.detail = key, what, where, detail

    def row(self):
        return {"key": self.key, "what": self.what, "where": self.where, "detail": self.detail}


class Outcome:
    def __init__(self):
        self.alarms = []
        self.items = []          # what was analysed: dicts
        self.decided = 0         # obligations established
        self.bounded = 0         # obligations only shown for bounded histories
        self.undecided = []
        self.counts = {}
        self.samples = []
        self.rules = []

    def alarm(self, key, what, where="", detail=""):
        if all(a.key != key for a in self.alarms):
            self.alarms.append(Alarm(key, what, where, detail))

    def ok(self, item=None):
        self.decided += 1
        if item is not None:
            self.items.append(item)

    def skip(self, what):
        self.undecided.append(what)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)
