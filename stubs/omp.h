#pragma once
extern "C" {
int omp_get_thread_num();
int omp_get_num_threads();
int omp_get_max_threads();
int omp_get_num_procs();
int omp_in_parallel();
void omp_set_num_threads(int);
void omp_set_dynamic(int);
void omp_set_nested(int);
double omp_get_wtime();
}
