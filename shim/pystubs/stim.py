"""Stand-in for the part of the stim Python package that pymatching uses: model text in, model text out."""


class DetectorErrorModel:
    def __init__(self, text=""):
        self._text = text

    def __str__(self):
        return self._text


class Circuit:
    """A 'circuit' whose detector error model is given; records how it was asked for."""

    def __init__(self, dem_decomposed="", dem_plain=""):
        self._d, self._p = dem_decomposed, dem_plain

    def detector_error_model(self, *, decompose_errors=False):
        return DetectorErrorModel(self._d if decompose_errors else self._p)

    def __str__(self):
        return f"#decomposed\n{self._d}\n#plain\n{self._p}\n"

    @staticmethod
    def from_file(path):
        with open(path) as f:
            text = f.read()
        if not text.startswith("#decomposed\n"):
            raise ValueError("not a circuit the stand-in knows")
        d, p = text[len("#decomposed\n"):].split("\n#plain\n")
        return Circuit(d, p)
