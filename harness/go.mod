module verifharness

go 1.26.0

require (
	github.com/Breeze0806/gobinlog v0.0.0-00010101000000-000000000000
	pgregory.net/rapid v1.3.0
)

require (
	github.com/Breeze0806/go v0.0.0-20210513031655-61a934305111 // indirect
	github.com/Breeze0806/mysql v1.4.2 // indirect
)

replace (
	github.com/Breeze0806/go => ../stublog
	github.com/Breeze0806/gobinlog => /repo
)
