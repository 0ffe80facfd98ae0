#ifndef FAIR_MQ_VERSION_H
#define FAIR_MQ_VERSION_H
#define FAIRMQ_VERSION "0.0.0"
#define FAIRMQ_VERSION_DEC 0
#define FAIRMQ_VERSION_MAJOR 0
#define FAIRMQ_VERSION_MINOR 0
#define FAIRMQ_VERSION_PATCH 0
#define FAIRMQ_GIT_VERSION "0.0.0"
#define FAIRMQ_GIT_DATE "verif"
#define FAIRMQ_REPO_URL "https://github.com/FairRootGroup/FairMQ"
#define FAIRMQ_LICENSE "LGPL-3.0"
#define FAIRMQ_COPYRIGHT "2012-2025 GSI"
#define FAIRMQ_BUILD_TYPE "verif"
#endif
