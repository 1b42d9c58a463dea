"""Composite client parts."""
from ficus.grpc_pipelines.grpc_pipelines import Pipeline2, PrintEventLogInfo2
from ficus.grpc_pipelines.util_parts import PrintEventlogInfoBeforeAfter
from ficus.grpc_pipelines.activities_parts import DiscoverActivitiesFromPatterns2, DiscoverActivities2
from ficus.grpc_pipelines.data_models import PatternsKind, PatternsDiscoveryStrategy
from ficus.grpc_pipelines.patterns_parts import FindMaximalRepeats2, FindSuperMaximalRepeats2, \
    FindNearSuperMaximalRepeats2, FindPrimitiveTandemArrays2, FindMaximalTandemArrays2
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import *


def frontend_pipeline(parts):
    return GrpcPipelinePartBase(defaultPart=GrpcPipelinePart(
        name='ExecuteFrontendPipeline',
        configuration=GrpcPipelinePartConfiguration(configurationParameters=[
            GrpcContextKeyValue(key=GrpcContextKey(name='pipeline'),
                                value=GrpcContextValue(pipeline=GrpcPipeline(parts=parts)))])))


class FromPatterns:
    """the patterns part chosen by kind runs first, then activities discovery at the given level"""
    props = ('C01', 'C02', 'C05')
    target = 'DiscoverActivitiesFromPatterns2'
    unordered = True

    @staticmethod
    def code(kind: PatternsKind, strategy: PatternsDiscoveryStrategy, max_array_length: int, activity_level: int):
        return DiscoverActivitiesFromPatterns2(patterns_kind=kind, strategy=strategy,
                                               max_array_length=max_array_length,
                                               activity_level=activity_level).to_grpc_part()

    @staticmethod
    def spec(kind, strategy, max_array_length, activity_level):
        if kind == PatternsKind.PrimitiveTandemArrays:
            p = FindPrimitiveTandemArrays2(max_array_length)
        elif kind == PatternsKind.MaximalTandemArrays:
            p = FindMaximalTandemArrays2(max_array_length)
        elif kind == PatternsKind.MaximalRepeats:
            p = FindMaximalRepeats2(strategy)
        elif kind == PatternsKind.SuperMaximalRepeats:
            p = FindSuperMaximalRepeats2(strategy)
        elif kind == PatternsKind.NearSuperMaximalRepeats:
            p = FindNearSuperMaximalRepeats2(strategy)
        else:
            raise ValueError()
        return frontend_pipeline([p.to_grpc_part(), DiscoverActivities2(activity_level).to_grpc_part()])


class BeforeAfter:
    """the log info part runs before and after the inner parts, which keep their order"""
    props = ('C01', 'C05')
    target = 'PrintEventlogInfoBeforeAfter'
    compare = 'ret'
    unordered = True

    @staticmethod
    def code(inner: Pipeline2):
        return PrintEventlogInfoBeforeAfter(inner).to_grpc_part()

    @staticmethod
    def spec(inner):
        return frontend_pipeline([PrintEventLogInfo2().to_grpc_part()] + [p.to_grpc_part() for p in inner.parts]
                                 + [PrintEventLogInfo2().to_grpc_part()])
