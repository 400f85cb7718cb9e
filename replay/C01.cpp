#include "ev.h"
int main() { event_battery<asyncpp::single_consumer_event, false, false>(); }
