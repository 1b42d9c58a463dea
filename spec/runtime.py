"""Running a pipeline on the backend."""
import uuid
import grpc
from ficus.grpc_pipelines.grpc_pipelines import Pipeline2, PipelinePart2, PipelinePart2WithCallback
from ficus.grpc_pipelines.context_values import ContextValue
from ficus.grpc_pipelines.models.backend_service_pb2 import *
from ficus.grpc_pipelines.models.backend_service_pb2_grpc import *
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import *
from ficus.grpc_pipelines.models.util_pb2 import *
from ficus.legacy.util import performance_cookie


LIMITS = [('grpc.max_send_message_length', 512 * 1024 * 1024), ('grpc.max_receive_message_length', 512 * 1024 * 1024)]


def the_request(p, ctx):
    parts = []
    for x in p.parts:
        if not isinstance(x, PipelinePart2):
            raise TypeError()
        parts.append(x.to_grpc_part())
    initial = [GrpcContextKeyValue(key=GrpcContextKey(name=k), value=ctx[k].to_grpc_context_value())
               for k in ctx if k != 'backend']
    return GrpcPipelineExecutionRequest(pipeline=GrpcPipeline(parts=parts), initialContext=initial)


def the_stub(ctx):
    return GrpcBackendServiceStub(grpc.insecure_channel(ctx.get('backend', 'localhost:8080'), options=LIMITS))


class Request:
    """one request carries the parts in order and every initial value but the backend address, which it goes to"""
    props = ('C07', 'C05')
    target = 'Pipeline2.execute'
    focus = ('ExecutePipeline', 'mutate', 'setitem', 'delitem', 'setattr', 'append')

    @staticmethod
    def code(p: Pipeline2, ctx: dict[str, ContextValue]):
        p.execute(ctx)

    @staticmethod
    def spec(p, ctx):
        s = the_stub(ctx)
        s.ExecutePipeline(the_request(p, ctx))


class Nested:
    """a nested pipeline is sent with its parts in order; anything that is not a part is rejected"""
    props = ('C05',)
    target = 'Pipeline2.to_grpc_pipeline'

    @staticmethod
    def code(p: Pipeline2):
        return p.to_grpc_pipeline()

    @staticmethod
    def spec(p):
        parts = []
        for x in p.parts:
            if not isinstance(x, PipelinePart2):
                raise TypeError()
            parts.append(x.to_grpc_part())
        return GrpcPipeline(parts=parts)


class Drop:
    """the final message ends the session; on success its result is dropped at the backend; it is what is returned"""
    props = ('C07',)
    target = 'Pipeline2.execute'
    focus = ('DropExecutionResult', 'ExecutePipeline')

    @staticmethod
    def code(p: Pipeline2, ctx: dict[str, ContextValue]):
        return p.execute(ctx)

    @staticmethod
    def spec(p, ctx):
        s = the_stub(ctx)
        r = None
        for m in s.ExecutePipeline(the_request(p, ctx)):
            r = m
            if m.HasField('finalResult'):
                break
        if r.finalResult.HasField('success'):
            s.DropExecutionResult(r.finalResult.success)
        return r


class Stream:
    """values addressed to a registered part reach its callback by name, log messages are printed, in stream order"""
    props = ('C06',)
    target = 'Pipeline2.execute'
    focus = ('execute_callback', 'print')
    print_about = 'logMessage'

    @staticmethod
    def code(p: Pipeline2, ctx: dict[str, ContextValue]):
        p.execute(ctx)

    @staticmethod
    def spec(p, ctx):
        s = the_stub(ctx)
        request = the_request(p, ctx)
        registered = []
        p.append_parts_with_callbacks(registered)
        by_id = {x.uuid: x for x in registered}
        for m in s.ExecutePipeline(request):
            if m.HasField('finalResult'):
                break
            if m.HasField('pipelinePartResult'):
                who = uuid.UUID(m.pipelinePartResult.uuid.uuid)
                if who in by_id:
                    by_id[who].execute_callback({v.key_name: v.value for v in m.pipelinePartResult.contextValues})
            if m.HasField('logMessage'):
                print(m.logMessage.message)


class Registered:
    """the parts with callbacks of a pipeline are collected part by part, in order"""
    props = ('C05',)
    target = 'Pipeline2.append_parts_with_callbacks'

    @staticmethod
    def code(p: Pipeline2, acc: list[PipelinePart2WithCallback]):
        p.append_parts_with_callbacks(acc)

    @staticmethod
    def spec(p, acc):
        for x in p.parts:
            x.append_parts_with_callbacks(acc)


class NewPipeline:
    """a pipeline holds the parts it was given, in order"""
    props = ('C05',)
    target = 'Pipeline2'

    @staticmethod
    def code(a: PipelinePart2, b: PipelinePart2, c: PipelinePart2):
        return Pipeline2(a, b, c).parts

    @staticmethod
    def spec(a, b, c):
        return [a, b, c]
