import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, witness
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "witness")
def run(ctx):
    stds = ("c++17", "c++20") if ctx.thorough else ("c++17",)
    for std in stds:
        witness.compile_file(ctx, "traits", os.path.join(D, "traits.cpp"), 80, std=std)
        witness.compile_file(ctx, "traits-glm", os.path.join(D, "traits_glm.cpp"), 20, std=std)
        witness.compile_file(ctx, "traits-dxmath", os.path.join(D, "traits_dx.cpp"), 15, ["-I" + os.path.join(D, "stub")], std=std)
    ctx.analysed = {"element_types": "fastgltf::math, glm, DirectXMath (layout stand-ins)", "language_versions": stds}
framework.main("C21", run, explain="static_assert witnesses compiled against the current headers: one per element type (accessor type, component type, component count, size, transposition) and per accessor/component type (sizes, rows, GL constants)")
