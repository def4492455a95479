module verif/xform

go 1.24
