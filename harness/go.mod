module verif/harness

go 1.20

require github.com/qmuntal/gltf v0.0.0

replace github.com/qmuntal/gltf => /repo
