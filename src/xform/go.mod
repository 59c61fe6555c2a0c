module xform

go 1.23
