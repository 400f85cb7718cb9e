#include "ev.h"
int main() { event_battery<asyncpp::single_consumer_auto_reset_event, true, false>(); }
