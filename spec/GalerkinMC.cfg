SPECIFICATION Spec
CONSTANTS Depth = 3
          Bases = {"Fourier", "Polynomial", "Chebychev", "GaussianRBF", "VanillaRBF", "MultiquadRBF"}
INVARIANTS Memoryless Constant OneByOne
CHECK_DEADLOCK FALSE
