package otelmongo

import "go.mongodb.org/mongo-driver/v2/event"

type Option interface{ o() }

func NewMonitor(...Option) *event.CommandMonitor { return &event.CommandMonitor{} }
