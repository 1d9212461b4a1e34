module watersim

go 1.25
