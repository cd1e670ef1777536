package baggage

type Baggage struct{}
