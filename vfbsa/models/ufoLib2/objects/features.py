class Features:
    def __init__(self, text=""):
        self.text = text
