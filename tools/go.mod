module veriftools

go 1.23
