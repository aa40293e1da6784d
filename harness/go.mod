module gpsmon

go 1.24

require (
	github.com/mmadfox/go-gpsgen v0.0.0
	github.com/anishathalye/porcupine v1.3.1
	github.com/google/uuid v1.3.0
	github.com/icholy/utm v1.0.1
	github.com/lucasb-eyer/go-colorful v1.2.0
	github.com/paulmach/orb v0.10.0
	github.com/stretchr/testify v1.8.2
	github.com/tkrajina/gpxgo v1.3.0
	github.com/valyala/fastrand v1.1.0
	google.golang.org/protobuf v1.30.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	go.mongodb.org/mongo-driver v1.11.4 // indirect
	golang.org/x/net v0.0.0-20211112202133-69e39bad7dc2 // indirect
	golang.org/x/text v0.3.7 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

replace github.com/mmadfox/go-gpsgen => /repo
