module xform

go 1.18
