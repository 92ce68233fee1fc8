module verif/harness

go 1.14

require (
	github.com/labstack/echo v3.3.10+incompatible
	github.com/raa0121/GoBCDice v0.0.0
)

replace github.com/raa0121/GoBCDice => /repo
