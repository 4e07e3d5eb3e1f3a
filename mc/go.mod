module verif/mc

go 1.24
