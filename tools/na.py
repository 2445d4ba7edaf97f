NA = {"C%02d" % i: "check not built yet" for i in range(1, 23)}
NA["C21"] = "SchemaReport is built from std HashMap/HashSet over owned schema trees (SipHash over recursive heap data): outside what CBMC can unroll"
NA["C22"] = "webusb client exists only for wasm32 targets and talks to JS promises through wasm-bindgen FFI; Kani cannot compile or model it"
