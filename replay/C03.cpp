#include "ev.h"
int main() { event_battery<asyncpp::multi_consumer_event, false, true>(); }
