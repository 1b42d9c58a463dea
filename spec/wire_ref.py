"""Reference wire values."""
from ficus.grpc_pipelines.grpc_pipelines import Pipeline2
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import *


def w_uint32(x: int):
    return GrpcContextValue(uint32=x)


def w_float(x: float):
    return GrpcContextValue(float=x)


def w_bool(x: bool):
    return GrpcContextValue(bool=x)


def w_string(x: str):
    return GrpcContextValue(string=x)


def w_strings(x: list[str]):
    return GrpcContextValue(strings=GrpcStrings(strings=list(x)))


def w_enum(t, x):
    return GrpcContextValue(enum=GrpcEnum(enumType=t, value=x.name))


def w_pipeline(x: Pipeline2):
    return GrpcContextValue(pipeline=GrpcPipeline(parts=[p.to_grpc_part() for p in x.parts]))
