module verif/rewriter

go 1.21
