DRIVERS = {
    "C01": [("density", "c01_traces"), ("density", "c01_big"), ("density", "c01_defaults"), ("density", "c01_wide")],
    "C02": [("density", "c02_edges"), ("density", "c02_traces")],
    "C03": [("density", "c03_traces"), ("density", "c03_relations")],
    "C04": [("alias", "c04_edges"), ("alias", "c04_traces")],
    "C05": [("bayes", "c05_edges"), ("bayes", "c05_traces"), ("bayes", "c05_many")],
    "C06": [("lingauss", "c06_traces"), ("lingauss", "c06_equations")],
    "C07": [("lingauss", "c07_traces"), ("lingauss", "c07_equations")],
    "C08": [("lingauss", "c08_traces"), ("lingauss", "c08_equations")],
    "C09": [("wme", "c09_traces"), ("wme", "c09_large")],
    "C10": [("iterlin", "c10_traces"), ("iterlin", "c10_large")],
    "C11": [("spatio", "c11_edges"), ("spatio", "c11_traces"), ("spatio", "c11_fine")],
    "C12": [("spatio", "c12_traces"), ("spatio", "c12_large")],
    "C13": [("spatio", "c13_traces"), ("spatio", "c13_large")],
    "C14": [("spatio", "c14_traces"), ("spatio", "c14_noise")],
    "C15": [("wrap", "c15_traces"), ("wrap", "c15_classes"), ("wrap", "c15_data_prob")],
    "C16": [("meshes", "c16_traces"), ("meshes", "c16_defaults")],
    "C17": [("plots", "c17_traces"), ("plots", "c17_fine"), ("plots", "c17_save")],
    "C18": [("decomp", "c18_traces"), ("decomp", "c18_large")],
    "C19": [("decomp", "c19_traces"), ("decomp", "c19_large")],
}
DRIVERS["C20"] = [("cli", "c20_cli"), ("examples", "c20_generators")]
DRIVERS["C21"] = [("views", "c21_traces"), ("views", "c21_large")]
DRIVERS["C22"] = [("rng", "c22_edges"), ("rng", "c22_histories"), ("rng", "c22_catalogue")]
