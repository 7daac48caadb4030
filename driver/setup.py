import build

build.heavy()
build.fast()
build.asan()
build.meter()
build.miri()
