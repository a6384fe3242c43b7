MODULES = ["names", "vec", "codes", "sort", "names2", "enc", "msg", "s2n", "rdata", "sets", "lemmas"]
