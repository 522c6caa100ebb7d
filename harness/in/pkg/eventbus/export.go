package eventbus

// ZZSubscribe subscribes and also hands out the channel that acknowledges the
// shutdown, as Unsubscribe wants it.
func ZZSubscribe(e *EventBus, topics ...Topic) (chan Event, chan struct{}) {
	return e.subscribe(topics...)
}

// ZZAwaited is the number of subscribers a shutdown would wait for.
func ZZAwaited(e *EventBus) int { return len(e.done) }
