prop = "C02"
needs = "an orthographic camera without zfar (the spec requires it), as a document that leaves the property out"
breaks = "a missing required property of an orthographic camera is accepted and read as zero"
edits = [("src/fastgltf.cpp", '''            if (orthographicCamera["zfar"].get_double().get(value) == SUCCESS) FASTGLTF_LIKELY {
                orthographic.zfar = static_cast<num>(value);
            } else {
                return Error::InvalidGltf;
            }
''', '''            if (auto error = orthographicCamera["zfar"].get_double().get(value); error == SUCCESS) FASTGLTF_LIKELY {
                orthographic.zfar = static_cast<num>(value);
            } else if (error != NO_SUCH_FIELD) {
                return Error::InvalidGltf;
            }
''')]
main = r'''
int main() {
    auto good = load(R"({"asset":{"version":"2.0"},"cameras":[{"type":"orthographic","orthographic":{"xmag":1,"ymag":1,"zfar":3,"znear":1}}]})");
    CHECK(good.error() == Error::None);
    auto a = load(R"({"asset":{"version":"2.0"},"cameras":[{"type":"orthographic","orthographic":{"xmag":1,"ymag":1,"znear":1}}]})");
    CHECK(a.error() != Error::None);
}
'''
