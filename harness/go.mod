module vh

go 1.26.0

require (
	github.com/anishathalye/porcupine v1.3.1
	trypo v0.0.0
)

require github.com/crunchypi/go-narb v0.0.0-20210728113441-c451128919c7

replace trypo => /repo
