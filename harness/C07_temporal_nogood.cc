// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork
#define PID "C07"
#include "C06_temporal_network.cc"
