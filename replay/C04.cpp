#include "ev.h"
int main() { event_battery<asyncpp::multi_consumer_auto_reset_event, true, true>(); }
