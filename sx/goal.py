class Goal:
    """One harness function with its bounds.

    cover: labels that must be reached for the exploration to mean anything.
    """

    def __init__(self, name, fn, bounds="", cover=(), weight=1):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.cover = tuple(cover)
        self.weight = weight
